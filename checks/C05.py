"""Abstract interpretation of the repositioning after a write, for every number of streams and fragments, every
fragment size and every byte count accepted by the system, and of what repositioning and clearing mean for each kind of
stream (relative to the current position within the fragment at hand, absolute in a later one)."""
from checks.streams import *
from checks.fragments import *

def check(R):
    R.rule("consume", "exactly n bytes are consumed: complete fragments are skipped, the first incomplete one is repositioned to, completely consumed streams are cleared")
    R.rule("write-repositions", "on every exit the streams were advanced by exactly the bytes the system accepted, before any failure is raised")
    R.rule("seek", "repositioning moves by the given number of fragments and lands at the given offset, relative to what was already consumed of the current fragment", 3)
    R.rule("clear", "clearing leaves nothing to read", 3)
    check_consume(R, "consume")
    check_write(R, None, None, "write-repositions")
    u = fragview()
    for o in (FragArray(R, u), Chained(R, u), Composite(R, u)):
        o.seek("seek"); o.clear("clear")

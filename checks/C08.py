"""Abstract interpretation of the growing output stream spans are serialized into, for any amount written in any
pieces."""
from checks.fragments import *

def check(R):
    R.rule("room", "the room handed out directly continues what was written, never overlaps it, and is accounted for")
    R.rule("back-up", "bytes given back are no longer part of what was written")
    R.rule("close", "after closing, reading starts at the first byte written; a new stream is empty", 2)
    R.rule("fragments", "what was written is what iteration offers", 2)
    u = fragview()
    c = Chained(R, u)
    c.output("room", "back-up", "close"); c.num("fragments"); c.each("fragments")

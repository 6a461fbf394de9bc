"""Abstract interpretation of every kind of fragment sequence (array of fragments, chain of blocks, list of streams,
request): iteration, counting, assembling, and copying out, for any number of fragments of any size and any answers of
the callback."""
from checks.streams import *
from checks.fragments import *
from checks.request import Request

def check(R):
    R.rule("count", "the fragment count is the number of fragments iteration offers", 3)
    R.rule("each", "iteration offers every remaining fragment once, in order, with its own address and length, stops when the callback declines, and says so", 4)
    R.rule("assemble", "after fragments, streams or spans are added they come after those added before, once, and are counted with their bytes", 4)
    R.rule("copy", "copying out places all fragments' bytes one behind the other")
    R.rule("copy-bounds", "nothing is copied into a buffer smaller than the byte count")
    u = fragview()
    a, c, l = FragArray(R, u), Chained(R, u), Composite(R, u)
    for o in (a, c, l): o.num("count"); o.each("each")
    a.assign("assemble"); l.append("assemble")
    q = Request(R)
    if q.counters("count"):
        q.ctor("assemble"); q.add_span("assemble")
    q.each("each"); q.copy_out("copy", "copy-bounds")

"""Abstract interpretation of the vectored write: every number of streams and fragments, every outcome of every system
call."""
from checks.streams import *

def check(R):
    R.rule("write-bounds", "a batch never exceeds its storage or the system's limit")
    R.rule("write-order", "each fragment is put into exactly one batch, in order, with its own address and length; every batch collected is sent; nothing is sent after a write that failed, blocked or was incomplete")
    R.rule("write-outcome", "a failure is raised exactly when the system reports an error other than that it would block, after the streams were repositioned; the result says whether everything was sent")
    R.rule("write-call", "the system is given exactly the socket and the batch, once, and its answer is passed on")
    check_writev(R, "write-call")
    check_write(R, "write-bounds", "write-order", "write-outcome")

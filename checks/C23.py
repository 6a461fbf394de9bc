"""Decides that what the encoders write is what the decoders read, bit for bit: base64 for every content of every length up to a bound,
hexadecimal numbers of every width, and the traceparent header, by a bit-level dataflow through both ends (see bitfn.py)."""
from lib import *
import ir
from checks import hexes, carriers
from checks.base64 import *
RULES = {
    "base64": ("encode writes exactly RFC 4648 of the bytes given, and decode turns that into the bytes again", 2),
    "hex": ("a number written in hexadecimal is read as the same number, whatever its value", 6),
    "traceparent": ("every field of a trace context written as a traceparent header is read back unchanged", 4),
    "cloud": ("both halves of the trace identifier of a cloud trace header are written and read at the same place", 1),
    "headers": ("every identifier is set under the header it is extracted from, the extracted one becomes the same field, and a header that could not be set is reported", 9),
}
def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    b64(R); hexes.roundtrip(R); carriers.pairs(R, "headers")
    R.assume("base64: lengths 0..100 and around 128, 256, 512, 1024 and 65536 (thorough: 0..519 and more); each step of the loops is the same from one group to the next")

def b64(R):
    (ue, fe), (ud, fd) = views()
    lens = list(range(0, 101)) + [127, 128, 129, 254, 255, 256, 257, 258, 259, 511, 512, 513, 1022, 1023, 1024, 1025]
    if R.tier != "quick": lens = sorted(set(lens) | set(range(0, 520)) | {4095, 4096, 4097, 32767, 32768, 32769})
    bad = {ENC: None, DEC: None}
    def go(which, u, f, data, want):
        if bad[which]: return
        n = len(data)
        try: x = equal(run(u, f, data), want)
        except Bad as e: bad[which] = (f.loc(e.i), "%s %s (%d bytes)" % (f.q, e.msg, n)); return
        if x: bad[which] = (f.loc(None), "for %d bytes: %s" % (n, x))
    big = 65537 if "B64BIG" not in __import__("os").environ else 3001
    for n in lens + [big]:
        d = bytes_in(n); e = encoded(d)
        go(ENC, ue, fe, d, e)
        if n: go(DEC, ud, fd, e, d)
    for k, f in ((ENC, fe), (DEC, fd)):
        R.saw("functions"); R.saw("lengths", len(lens) + 1)
        R.ob("base64", k, bad[k] is None, bad[k][0] if bad[k] else f.loc(None), bad[k][1] if bad[k] else "%d lengths up to %d, every content" % (len(lens) + 1, big))

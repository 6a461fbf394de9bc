"""Base64::encode and Base64::decode against RFC 4648, bit for bit, for every content of given lengths and every pattern of characters."""
from lib import *
import ir
from checks.bitfn import *
ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
PAD = 61
ENC = "lightstep::Base64::encode"; DEC = "lightstep::Base64::decode"
def views():
    P = ir.program(); P.need("base64/src/base64")
    out = []
    for n in (ENC, DEC):
        u = ir.view("b64_" + n.split("::")[-1], [n], barriers=[r"std::__cxx11::basic_string::.*", r"std::operator\+"])
        out.append((u, one(u, n)))
    return out
def bytes_in(n): return [tuple(((k, j),)[0:1] and (((k, j),), 2) for j in range(8)) for k in range(n)]
def encoded(data):
    """the encoding of a list of words of 8 bits"""
    out = []
    for g in range(0, len(data), 3):
        bs = data[g:g + 3]; stream = []
        for b in bs: stream += list(reversed(bits_of(b, 8)))
        stream += [0] * (-len(stream) % 6)
        for k in range(0, len(stream), 6): out.append(lookup(ALPHA, 1, tuple(reversed(stream[k:k + 6])), "alpha"))
        out += [PAD] * (4 - len(stream) // 6)
    return out
def run(u, f, data, steps=None):
    """list of (conditions, resulting list of bytes)"""
    fl = Flow(u, f, [Ptr("ret"), Ptr("input"), len(data)], {"input": data}, max_steps=steps or 60 * len(data) + 400)
    out = []
    for p, _ in fl.run():
        if Ptr("ret") not in p.strs: raise Broken(f.q + ": the result is not a known string")
        out.append((p.conds, p.strs[Ptr("ret")]))
    return out
def equal(res, want):
    for conds, got in res:
        if len(got) != len(want): return "%d bytes instead of %d" % (len(got), len(want))
        for k, (a, b) in enumerate(zip(got, want)):
            if a is None: raise Broken("a byte of the result is not tracked")
            if not same(a, b, 8, conds): return "byte %d of %d differs" % (k, len(want))
    return None
V, V4, N4, V2, N2, Pd, I = "valid", "valid, low 4 bits zero", "valid, low 4 bits not zero", "valid, low 2 bits zero", "valid, low 2 bits not zero", "=", "invalid"
def sets():
    return {V: list(ALPHA), V4: [ALPHA[k] for k in range(64) if k % 16 == 0], N4: [ALPHA[k] for k in range(64) if k % 16],
            V2: [ALPHA[k] for k in range(64) if k % 4 == 0], N2: [ALPHA[k] for k in range(64) if k % 4], Pd: [PAD],
            I: [b for b in range(256) if b != PAD and b not in ALPHA]}
REV = bytes([ALPHA.index(b) if b in ALPHA else 0 for b in range(256)])
def decoded(pattern, data):
    """what must come out for these characters"""
    if len(pattern) % 4 or not pattern: return []
    out = []
    for g in range(0, len(pattern), 4):
        t = pattern[g:g + 4]; last = g + 4 == len(pattern)
        ok = lambda x: x not in (Pd, I)
        n = 3
        if not all(map(ok, t)):
            if last and ok(t[0]) and t[1] == V4 and t[2] == Pd and t[3] == Pd: n = 1
            elif last and ok(t[0]) and ok(t[1]) and t[2] == V2 and t[3] == Pd: n = 2
            else: return []
        stream = []
        for k in range(4):
            b = data[g + k]
            stream += [0] * 6 if t[k] == Pd else list(reversed(bits_of(lookup(REV, 1, bits_of(b, 8), "rev"), 6)))
        for k in range(n): out.append(word(tuple(reversed(stream[8 * k:8 * k + 8]))))
    return out
def chars(pattern):
    S = sets(); return [choose(k, S[c]) for k, c in enumerate(pattern)]

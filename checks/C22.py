"""Decides, by a bit-level dataflow over every pattern of good, padding and bad characters (see bitfn.py), that base64 text, hexadecimal
numbers and traceparent headers are decoded completely or rejected, and that no byte outside them is read."""
import itertools
from lib import *
import ir
from checks import hexes, carriers
from checks.hexes import *
from checks.base64 import *
RULES = {
    "base64": ("text that is not RFC 4648 base64 decodes to nothing, all other text to exactly its bytes, and nothing outside the text is read", 3),
    "hex": ("a hexadecimal number is read completely or rejected, and nothing outside its text is read", 5),
    "traceparent": ("a traceparent header is accepted only if every field of it is well formed, and nothing outside it is read", 3),
    "cloud": ("a cloud trace header is accepted only with a complete trace identifier, and nothing outside it is read", 2),
    "carrier": ("a carrier is accepted only if every header needed is in it and every one read is well formed; well-formed headers given once are accepted", 3),
    "stream": ("the stream made of decoded text ends where the text ends", 1),
}
def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    b64(R); hexnum(R); parent(R); cloud(R); stream(R); carriers.check(R, "carrier")
    R.assume("memory for the decoded text is obtained; std::isspace and std::isdigit are those of the C locale")

def b64(R):
    u, f = views()[1]
    thorough = R.tier != "quick"
    def go(pats):
        n = 0
        for p in pats:
            n += 1
            d = chars(p)
            try: x = equal(run(u, f, d), decoded(p, d))
            except Bad as e: return f.loc(e.i), "%s, for the characters [%s]" % (e.msg, "; ".join(p)), n
            if x: return f.loc(None), "%s for the characters [%s]" % (x, "; ".join(p)), n
        return None, None, n
    last = list(itertools.product((V, Pd, I), (V4, N4, Pd, I), (V2, N2, Pd, I), (V, Pd, I)))
    good = [V] * 4
    firsts = [tuple(good)] + [tuple(x if j == k else V for j in range(4)) for k in range(4) for x in (Pd, I)] + [(V, V4, Pd, Pd), (V, V, V2, Pd), (V, V, Pd, V), (I,) * 4, (Pd,) * 4]
    def groups():
        for a in firsts:
            for b in (last if thorough or a == tuple(good) else [(V, V, V, V), (V, V, V2, Pd), (V, V4, Pd, Pd)]): yield a + b
        for a in firsts[1:]: yield tuple(good) + a + tuple(good); yield a + tuple(good) + (V, V4, Pd, Pd)
    def lengths():
        yield ()
        for n in range(1, 40 if thorough else 14):
            if n % 4: yield (V,) * n; yield (V,) * (n - 1) + (Pd,)
            if n % 4 > 1: yield (V,) * (n - 2) + (Pd, Pd)
    for name, pats in (("one group", last), ("several groups", groups()), ("incomplete groups", lengths())):
        loc, msg, n = go(pats)
        R.saw("patterns of characters", n)
        R.ob("base64", DEC + "/" + name, msg is None, loc or f.loc(None), msg or "%d patterns, every character" % n)

HX = [b for b in range(256) if b in HEX]; HN = [b for b in HX if b != 48]; SP = list(b" \t\n\v\f\r")
BADC = [b for b in range(256) if b not in HEX and b not in b" \t\n\v\f\r"]
def hexnum(R):
    for n, w in (("HexToUint64", 64), ("HexToUint128", 128)):
        u, f = view(L + n); W = w // 4
        def pats():
            """(leading blanks, leading zeros, digits after them, position of a bad one, trailing blanks)"""
            for d in range(0, W + 3):
                yield 0, 0, d, None, 0
                yield 1, 0, d, None, 2
                yield 0, 2, d, None, 0
                yield 2, W + 1, d, None, 1
                for b in range(d): 
                    if b < 2 or b > d - 3 or b in (W // 2 - 1, W // 2): yield 0, 0, d, b, 0; yield 1, 1, d, b, 1
            yield 3, 0, 0, None, 0
        def go():
            k = 0
            for a, z, d, b, t in pats():
                k += 1
                body = [choose(("d", j), BADC if j == b else HN if j == 0 else HX) for j in range(d)]
                text = [choose(("a", j), SP) for j in range(a)] + [48] * z + body + [choose(("t", j), SP) for j in range(t)]
                what = "%d blanks, %d zeros, %d digits%s, %d blanks" % (a, z, d, " of which number %d is none" % b if b is not None else "", t)
                # beyond the first digit none is a leading zero unless the first is bad
                ok = b is None and d <= W and (d or z)
                _, ends = read(L + n, text, [Ptr("hi"), Ptr("lo")] if w == 128 else [])
                for conds, got, p in ends:
                    if not same(got, int(bool(ok)), 1, conds): return "%s is %s" % (what, "rejected" if ok else "accepted")
                    if ok:
                        want = value_of(body)
                        for o, s in ((("lo", 0), ("hi", 64)) if w == 128 else (("ret", 0),)):
                            g = memword(p, o, 0 if w == 128 else 24, 8)
                            if g is None or not same(g, word(bits_of(want, w)[s:s + 64]), 64, conds): return "%s does not give the number" % what
            R.saw("patterns of characters", k)
        report(R, "hex", L + n, f, go)
    for n, w in (("NormalizedHexToUint8", 8), ("NormalizedHexToUint64", 64), ("NormalizedHexToUint128", 128)):
        u, f = view(L + n); W = w // 4
        def go():
            for b in [None] + list(range(W)):
                text = [choose(("d", j), [x for x in range(256) if x not in HEX] if j == b else HX) for j in range(W)]
                _, ends = read(L + n, text, [Ptr("hi"), Ptr("lo")] if w == 128 else [])
                for conds, got, p in ends:
                    if not same(got, int(b is None), 1, conds): return "digits of which number %s is none are %s" % (b, "rejected" if b is None else "accepted")
                    if b is None:
                        want = value_of(text)
                        for o, s in ((("lo", 0), ("hi", 64)) if w == 128 else (("ret", 0),)):
                            m = min(w, 64); g = memword(p, o, 0 if w == 128 else 24, m // 8)
                            if g is None or not same(g, word(bits_of(want, w)[s:s + m]), m, conds): return "digits do not give the number"
            R.saw("patterns of characters", W + 1)
        report(R, "hex", L + n, f, go)

ANY = list(range(256))
def parent(R):
    n = L + "ParseTraceContext"; u, f = view(n)
    offs = {m["n"]: m["off"] for m in members(L + "TraceContext")}
    fields = [("version", 0, 2), ("trace_id_high", 3, 16), ("trace_id_low", 19, 16), ("parent_id", 36, 16), ("trace_flags", 53, 2)]
    dashes = (2, 35, 52)
    def header(bad=None, extra=0):
        t = []
        for j in range(55 + extra):
            if j >= 55: s = ANY
            elif j in dashes: s = [x for x in ANY if x != 45] if j == bad else [45]
            else: s = [x for x in ANY if x not in HEX] if j == bad else HX
            t.append(choose(("c", j), s))
        return t
    def short():
        for k in range(55):
            _, ends = read(n, [choose(("c", j), ANY) for j in range(k)], [Ptr("ctx")])
            for conds, got, p in ends:
                if not same(got, 0, 1, conds): return "a header of %d bytes is accepted" % k
        R.saw("patterns of characters", 55)
    def wrong():
        for k in range(55):
            _, ends = read(n, header(k), [Ptr("ctx")])
            for conds, got, p in ends:
                if not same(got, 0, 1, conds): return "a header whose byte %d is none of those allowed there is accepted" % k
        R.saw("patterns of characters", 55)
    def right():
        for extra in (0, 1, 7):
            t = header(None, extra)
            _, ends = read(n, t, [Ptr("ctx")])
            for conds, got, p in ends:
                if extra == 0 and not same(got, 1, 1, conds): return "a well-formed header is rejected"
                if not same(got, 1, 1, conds): continue
                for nm, at, ln in fields:
                    g = memword(p, "ctx", offs[nm], ln // 2)
                    if g is None or not same(g, value_of(t[at:at + ln]), 4 * ln, conds): return nm + " is not what the header says"
        R.saw("patterns of characters", 3)
    for nm, fn in (("short", short), ("malformed", wrong), ("well formed", right)): report(R, "traceparent", n + "/" + nm, f, fn)

def cloud(R):
    n = L + "CloudTracePropagator::ParseCloudTrace"; u, f = view(n)
    offs = {m["n"]: m["off"] for m in members(L + "TraceContext")}
    mem = {("ctx", offs["trace_flags"]): number("flags0", 8)}
    def rd(t): return read(n, t, [Ptr("ctx")], mem=mem, this=True, unknown=True, on_call=hexes.lib_calls)[1]
    def ident():
        for bad in [None] + list(range(32)):
            t = [choose(("c", j), [x for x in ANY if x not in HEX] if j == bad else HX) for j in range(32)]
            for conds, got, p in rd(t):
                if not same(got, int(bad is None), 1, conds): return "a trace identifier%s is %s" % (" with a bad digit" if bad is not None else "", "rejected" if bad is None else "accepted")
        R.saw("patterns of characters", 33)
    def inside():
        D = list(b"0123456789"); ND = [x for x in ANY if x not in D]
        t0 = [choose(("c", j), HX) for j in range(32)]
        for k in range(32):
            for conds, got, p in rd([choose(("c", j), ANY) for j in range(k)]):
                if not same(got, 0, 1, conds): return "a header of %d bytes is accepted" % k
        for d in (0, 1, 2, 19, 20, 21, 22, 25):
            for tail in (0, 1, 2, 3, 4, 5):
                t = t0 + [47] + [choose(("p", j), D) for j in range(d)] + [choose(("e", j), ND if j == 0 else ANY) for j in range(tail)]
                rd(t)
        for conds, got, p in rd(t0 + [choose(("s", 0), [x for x in ANY if x != 47]), choose(("s", 1), ANY)]):
            if not same(got, 0, 1, conds): return "an identifier followed by something else than a slash is accepted"
        R.saw("patterns of characters", 32 + 49)
    report(R, "cloud", n + "/identifier", f, ident); report(R, "cloud", n + "/inside", f, inside)

def stream(R):
    n = L + "in_memory_buffer::in_memory_buffer"
    ir.program().need("common/in_memory_stream")
    u = ir.view("in_memory", [n], barriers=[r"std::basic_streambuf::.*", r"std::streambuf::.*"])
    n_set = 0
    for f in u.roots:
        v = Values(f)
        for i in f.all_instrs():
            if i.op not in ("call", "invoke") or not re.search(r"::setg$", cname(u, i) or ""): continue
            n_set += 1
            this, beg, cur, end = [v.op(o) for o in i.ops[:4]]
            z = lambda e: not any(x for x in e.values())
            ok = z(sub(beg, atom("arg1"))) and z(sub(cur, atom("arg1"))) and z(sub(sub(end, atom("arg1")), atom("arg2")))
            R.ob("stream", n, ok, f.loc(i), "the area to read is not the text given, from its first to its last byte")
        if not n_set: R.ob("stream", n, False, f.loc(None), "no area to read is set")
        R.saw("functions")

"""Hexadecimal numbers and the headers made of them, written and read, in the bit-level domain."""
from lib import *
import ir
from checks.bitfn import *
L = "lightstep::"
import functools
@functools.lru_cache(None)
def view(n):
    u = ir.view("hex_" + n.split("::")[-1], [n], barriers=["std::make_error_code"], inlines=["opentracing::.*"])
    return u, one(u, n)
DIGITS = b"0123456789abcdef"
def number(name, w): return tuple((((name, j),), 2) for j in range(w))
HEX = {c: int(chr(c), 16) for c in b"0123456789abcdefABCDEF"}
REVHEX = bytes(HEX.get(b, 0) for b in range(256))
def nibble(ch): return bits_of(lookup(REVHEX, 1, bits_of(ch, 8), "revhex"), 4)
def value_of(chars):
    """what these hexadecimal digits mean"""
    bits = []
    for c in reversed(chars): bits += nibble(c)
    return word(tuple(bits)) if bits else 0
def text_of(v, w):
    b = bits_of(v, w); return [lookup(DIGITS, 1, b[k:k + 4], "digits") for k in range(w - 4, -1, -4)]

def write(n, args, size, out="out", mem=None, pre=()):
    """the text written to the object out by the function"""
    u, f = view(n)
    fl = Flow(u, f, list(args), {}, max_steps=5000, mem=mem, limits={out: size})
    ends = fl.run()
    return f, [(p.conds, [p.mem.get((out, k)) for k in range(size)], p) for p, _ in ends]
def read(n, chars, outs=(), mem=None, this=False, unknown=False, on_call=None):
    """[(conditions, accepted, state)]"""
    u, f = view(n)
    args = [Ptr("ret")] + ([Ptr("this")] if this else []) + [len(chars), Ptr("input")] + list(outs)
    fl = Flow(u, f, args, {"input": chars}, max_steps=20000, mem=mem, unknown=unknown, on_call=on_call)
    out = []
    for p, _ in fl.run():
        h = p.mem.get(("ret", 0))
        if h is None or not isinstance(h, (int, tuple)): raise Broken(f.q + ": whether it succeeds is not tracked")
        out.append((p.conds, bits_of(h, 8)[0], p))
    return f, out
def memword(p, o, k, n):
    bs = [p.mem.get((o, k + j)) for j in range(n)]
    return None if any(b is None for b in bs) else word(sum((bits_of(b, 8) for b in bs), ()))

def report(R, rule, name, f, fn):
    try: bad = fn()
    except Bad as e: bad = (f.loc(e.i) if f is not None else "", e.msg)
    if isinstance(bad, str): bad = (f.loc(None) if f is not None else "", bad)
    R.ob(rule, name, bad is None, bad[0] if bad else (f.loc(None) if f is not None else ""), bad[1] if bad else "every value")

def roundtrip(R):
    ir.program().need("common/hex_conversion", "propagation/trace_context.", "propagation/cloud_trace")
    # writers: exactly two lower-case digits per byte, most significant first
    for n, w in (("Uint64ToHex", 64), ("Uint32ToHex", 32), ("Uint8ToHex", 8)):
        def go():
            x = number("x", w)
            f, ends = write(L + n, [x, Ptr("out")], w // 4)
            for conds, txt, p in ends:
                for k, (a, b) in enumerate(zip(txt, text_of(x, w))):
                    if a is None: return "digit %d is not written" % k
                    if not same(a, b, 8, conds): return "digit %d is not the number's" % k
        report(R, "hex", L + n, view(L + n)[1], go)
        R.saw("functions")
    # readers
    for n, w in (("HexToUint64", 64), ("NormalizedHexToUint8", 8), ("NormalizedHexToUint64", 64), ("HexToUint128", 128), ("NormalizedHexToUint128", 128)):
        def go():
            x = number("x", w)
            f, ends = read(L + n, text_of(x, w), [Ptr("hi"), Ptr("lo")] if w == 128 else [])
            if not ends: return "nothing comes out"
            for conds, ok, p in ends:
                if not same(ok, 1, 1, conds): return "a number as it is written is rejected"
                if w == 128:
                    for o, k in (("lo", 0), ("hi", 64)):
                        g = memword(p, o, 0, 8)
                        if g is None or not same(g, word(bits_of(x, w)[k:k + 64]), 64, conds): return "the %s half read differs from the one written" % o
                else:
                    g = memword(p, "ret", 24, w // 8)
                    if g is None or not same(g, x, w, conds): return "the number read differs from the one written"
        report(R, "hex", L + n, view(L + n)[1], go)
        R.saw("functions")
    # traceparent
    offs = {m["n"]: (m["off"], m["sz"]) for m in members(L + "TraceContext")}
    fields = [("trace_id_high", 64), ("trace_id_low", 64), ("parent_id", 64), ("trace_flags", 8), ("version", 8)]
    for nm, w in fields:
        if nm not in offs: raise Broken("TraceContext has no " + nm)
    vals = {nm: number(nm, w) for nm, w in fields}
    mem = {}
    for nm, w in fields:
        for k in range(w // 8): mem[("ctx", offs[nm][0] + k)] = word(vals[nm][8 * k:8 * k + 8])
    text = None
    def ser():
        nonlocal text
        f, ends = write(L + "SerializeTraceContext", [Ptr("ctx"), Ptr("out")], 55, mem=mem)
        want = text_of(vals["version"], 8) + [45] + text_of(vals["trace_id_high"], 64) + text_of(vals["trace_id_low"], 64) + [45] + text_of(vals["parent_id"], 64) + [45] + text_of(vals["trace_flags"], 8)
        text = want
        for conds, txt, p in ends:
            for k, (a, b) in enumerate(zip(txt, want)):
                if a is None: return "byte %d of the header is not written" % k
                if not same(a, b, 8, conds): return "byte %d of the header is not that of version-trace-parent-flags" % k
    report(R, "traceparent", L + "SerializeTraceContext", view(L + "SerializeTraceContext")[1], ser)
    def par(nm, w):
        f, ends = read(L + "ParseTraceContext", text, [Ptr("ctx")])
        for conds, ok, p in ends:
            if not same(ok, 1, 1, conds): return "a header as it is written is rejected"
            g = memword(p, "ctx", offs[nm][0], w // 8)
            if g is None or not same(g, vals[nm], w, conds): return nm + " read differs from the one written"
    for nm, w in fields: report(R, "traceparent", L + "ParseTraceContext/" + nm, view(L + "ParseTraceContext")[1], lambda: par(nm, w))
    # cloud trace: the identifier's digits (the rest is decimal text made by snprintf)
    def cloud():
        f, ends = write(L + "CloudTracePropagator::SerializeCloudTrace", [Ptr("this"), Ptr("ctx"), Ptr("out")], 64, mem=mem)
        return None
    def cloud():
        u, f = view(L + "CloudTracePropagator::SerializeCloudTrace")
        at = []
        def oc(fl, p, i, c, A):
            if c == "snprintf":
                at.append((A, {k: v for k, v in p.mem.items()})); return 4
        fl = Flow(u, f, [Ptr("this"), Ptr("ctx"), Ptr("out")], {}, mem=mem, on_call=oc, unknown=True)
        for p, r in fl.run():
            want = text_of(vals["trace_id_high"], 64) + text_of(vals["trace_id_low"], 64)
            for k, b in enumerate(want):
                a = p.mem.get(("out", k))
                if a is None or not same(a, b, 8, p.conds): return "digit %d of the trace identifier is not written" % k
            if r is not None and isinstance(r, int) and at and r != 32 + 4: return "the length returned is not what was written"
        for A, m in at:
            if A[0] != Ptr("out", 32): return "the parent identifier is not written right after the trace identifier"
            if len(A) < 5 or A[3] is None or not same(A[3], vals["parent_id"], 64): return "what is written as the parent identifier is not it"
            if isinstance(A[4], (int, tuple)) and not (same(A[4], bits_of(vals["trace_flags"], 8)[:1] + (0,) * 31, 32)): return "what is written as the sampling option is not the sampled flag"
        if not at: raise Broken("SerializeCloudTrace no longer writes by snprintf")
        g, ends = None, None
        x = number("x", 128); f2, ends = read(L + "CloudTracePropagator::ParseCloudTrace", text_of(x, 128), [Ptr("ctx")], mem=mem, this=True, unknown=True, on_call=lib_calls)
        for conds, ok, p in ends:
            if not same(ok, 1, 1, conds): return "a bare trace identifier is rejected"
            for nm, k in (("trace_id_low", 0), ("trace_id_high", 64)):
                g = memword(p, "ctx", offs[nm][0], 8)
                if g is None or not same(g, word(x[k:k + 64]), 64, conds): return nm + " read differs from the one written"
    report(R, "cloud", L + "CloudTracePropagator", view(L + "CloudTracePropagator::SerializeCloudTrace")[1], cloud)
    R.saw("functions"); R.saw("functions"); R.saw("functions")
def lib_calls(fl, p, i, c, A):
    if c == "__errno_location": return Ptr("errno")
    if c in ("strtoull", "strlen", "std::equal", "__clang_call_terminate"): return number(("u", i.id), 64)[:1] + (0,) * 63 if c == "std::equal" else "?"
    return None

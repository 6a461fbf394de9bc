"""Extraction from a carrier of headers, for every sequence of headers up to a bound: the carrier is a model (models/carrier.cpp) that hands
out any headers; which header is which, and whether its text is well formed, is left open at every step."""
from lib import *
import ir
from checks.bitfn import *
L = "lightstep::"
PARSERS = ["HexToUint64", "HexToUint128", "NormalizedHexToUint64", "NormalizedHexToUint128", "ParseTraceContext", "CloudTracePropagator::ParseCloudTrace"]
WHAT = {"HexToUint64": "span identifier", "HexToUint128": "trace identifier", "NormalizedHexToUint64": "span identifier", "NormalizedHexToUint128": "trace identifier"}
INL = [r"std::function::.*", r"std::_Function_(base|handler)::.*", r"std::_Any_data::.*", r"std::_Maybe_unary_or_binary_function::.*", r"opentracing::.*", r"std::error_code::.*"]
CARRIER = "_ZTSN11opentracing2v213TextMapReaderE"
FOREACH = 24    # two destructors and LookupKey come before ForeachKey in the interface's table
HAS, VALUE = 0, 24

def views():
    """(name, what an accepted carrier needs, unit, functions, bound on the number of headers)"""
    p = ir.program(); p.need("propagation/multiheader", "propagation/trace_context_prop", "propagation/cloud_trace", "propagation/envoy", "propagation/binary", "propagation/propagation.")
    reps = [("vcall$%s$%d" % (CARRIER, FOREACH), "verif::carrier_foreach")]
    for cls, needed in (("MultiheaderPropagator", ("trace identifier", "span identifier")), ("TraceContextPropagator", ("header",)), ("CloudTracePropagator", ("header",)), ("EnvoyPropagator", ("encoding", "context"))):
        bar = [L + n for n in PARSERS] + [L + "ToLower", L + "Base64::decode", L + cls + r"::ExtractSpanContext\(\)::.*", r"std::equal_to.*", "verif::carrier_(more|next)"]
        if cls == "EnvoyPropagator": bar += [L + "ExtractSpanContext", L + "AreErrorsEqual"]
        u = ir.view("carrier_" + cls, [L + cls + "::ExtractSpanContext"], bar, INL, reps)
        yield cls, needed, u, [f for f in u.roots if f.q == L + cls + "::ExtractSpanContext"], None
    u = ir.view("carrier_binary", [L + "ExtractSpanContext"], [r"(lightstep|\(anon\))(::\(anon\))?::ToLower"], INL, reps)
    yield "binary", ("message",), u, [f for f in u.roots if f.q == L + "ExtractSpanContext" and re.match(r"_ZN9lightstep18ExtractSpanContextERSi", f.name)], 0

def flow(u, f, n, mem=None, cx=None):
    """all ends for carriers of n headers; with mem, what names are compared is recorded"""
    from checks.hexes import number
    def oc(fl, p, i, c, A):
        if (callee_of(i) or "").startswith("llvm.") or c in ("memcpy", "memmove", "memset"): return None
        s = c.split("::")[-1]
        if c == "verif::carrier_more":
            k = sum(1 for e in p.ev if e[0] == "more"); p.ev.append(("more",)); return int(k < n)
        if c == "verif::carrier_next": p.ev.append(("next",)); return "?"
        def parse(what):
            g = number1(("good", len(p.ev), i.id)); p.ev.append(("parse", what, g, i, A[-1] if A else None)); return g
        def result(offs):
            r = A[0]
            if not isinstance(r, Ptr): raise Broken("%s: where %s leaves its result is not tracked" % (f.q, s))
            for k in range(0, 32): p.mem.pop((r.o, r.k + k), None)
            for k, x in offs: p.mem[(r.o, r.k + k)] = x
            return "?"
        if any(c == L + x for x in PARSERS): 
            g = parse(WHAT.get(s, "header"))
            if mem is not None:
                for o, n_ in zip(A[-2:], ("trace_id_high", "trace_id_low")) if s.endswith("128") else ():
                    if isinstance(o, Ptr):
                        for k in range(8): p.mem[(o.o, o.k + k)] = word(number((n_, "read"), 64)[8 * k:8 * k + 8])
                if s.endswith("64"): return result([(HAS, g)] + [(VALUE + k, word(number(("parent_id", "read"), 64)[8 * k:8 * k + 8])) for k in range(8)])
            return result([(HAS, g)])
        if c == L + "ExtractSpanContext":
            v = number1(("value", len(p.ev), i.id)); g = parse("context"); p.ev.append(("value", v)); return result([(HAS, g), (VALUE, v)])
        if c.endswith("::ParseFromIstream"): return parse("message")
        if re.search(r"::Parse(Partial)?From|::MergeFrom(Coded|Istream)", c): raise Broken("%s reads a message by %s" % (f.q, c))
        if c == L + "Base64::decode": p.ev.append(("decode",)); return "?"
        if "basic_string" in c and s in ("empty", "size", "length") and ("decode",) in p.ev:
            old = [e for e in p.ev if e[0] == "parse" and e[1] == "encoding"]
            g = old[0][2] if old else parse("encoding")
            return (neg(g[0]),) if s == "empty" else g + (0,) * 56
        if re.match(r"operator new", c): return Ptr(("heap", i.id))
        if c in ("std::__throw_bad_function_call", "__clang_call_terminate", "std::terminate", "abort"): raise Bad(i, "fails")
        if mem is not None and i.ty == "i1":
            ks = key_of(fl, p, A)
            if len(ks) == 1:
                g = number1(("cmp", len(p.ev), i.id)); p.ev.append(("cmp", ks[0], g)); return g[:1]
        return "?"
    fl = Flow(u, f, [Ptr("a%d" % k) if a[1] == "ptr" else None for k, a in enumerate(f.args)], {}, max_steps=4000, on_call=oc, unknown=True, mem=mem, distinct=lambda o: o == "a0" or isinstance(o, tuple))
    return fl.run()
def number1(name): return ((((name, 0),), 2),) + (0,) * 7

def check(R, rule):
    for cls, needed, u, fns, most in views():
        if not fns: raise Broken(cls + ": extraction not found")
        for f in fns:
            bad = None; paths = 0
            if f.args[0][1] != "ptr": raise Broken(f.q + ": where the result goes is not known")
            for n in range((4 if R.tier == "quick" else 5) if most is None else most + 1):
                try: ends = flow(u, f, n)
                except Bad as e: bad = (f.loc(e.i), "%s for %d headers" % (e.msg, n)); break
                for p, _ in ends:
                    paths += 1
                    bad = judge(f, p, needed, n) or bad
            R.saw("paths", paths)
            R.ob(rule, f.q if cls != "binary" else f.q + "/" + cls, bad is None, bad[0] if bad else f.loc(None), bad[1] if bad else "%d paths" % paths)
    chain(R, rule)

def result_of(f, p):
    h = p.mem.get(("a0", HAS)); v = p.mem.get(("a0", VALUE))
    if not isinstance(h, (int, tuple)): raise Broken("%s: whether it succeeds is not tracked" % f.q)
    return bits_of(h, 8)[0], bits_of(v, 8)[0] if isinstance(v, (int, tuple)) else None
def sure(p, b, x): return same(b if isinstance(b, int) else (b,), x, 1, p.conds)

def judge(f, p, needed, n):
    bad = None
    ev = [(e[1], bits_of(e[2], 8)[0], e[3]) for e in p.ev if e[0] == "parse"]
    inner = [bits_of(e[1], 8)[0] for e in p.ev if e[0] == "value"]
    hb, vb = result_of(f, p)
    one_ = lambda b: sure(p, b, 1)
    zero = lambda b: sure(p, b, 0)
    got = lambda w: [e for e in ev if e[0] == w]
    if not zero(hb) and vb is None: raise Broken("%s: what it returns is not tracked" % f.q)
    accepted = not zero(hb) and not zero(vb)
    # under the assumption that the result is success
    def given(b): return comb("and", comb("and", hb, vb), neg(b))
    for w, g, i in ev:
        if accepted and not zero(given(g)): bad = (f.loc(i), "a malformed %s may be accepted" % w)
    for v in inner:
        if accepted and not zero(given(v)): bad = (f.loc(ev[-1][2]), "a carrier is accepted although no context was in its header")
    for w, g, i in ev:
        if not zero(comb("and", hb, neg(g))): bad = (f.loc(i), "a malformed %s is not reported" % w)
    if accepted:
        for w in needed:
            if not got(w): bad = (f.loc(ev[-1][2] if ev else None), "a carrier of %d headers without a %s may be accepted" % (n, w))
    if all(len(got(w)) == 1 for w in needed) and not inner:
        allgood = 1
        for w, g, i in ev: allgood = comb("and", allgood, g)
        if not zero(comb("and", allgood, neg(comb("and", hb, vb)))): bad = (f.loc(ev[-1][2]), "well-formed headers are not accepted")
    return bad

def chain(R, rule):
    """the propagators configured are asked one after another until one finds a context or fails, whose answer is given"""
    u = ir.view("carrier_chain", [L + "ExtractSpanContext"], [L + "Propagator::.*", r"google::protobuf::.*"], INL)
    fns = [f for f in u.roots if f.q == L + "ExtractSpanContext" and "PropagationOptions" in f.name and ("TextMapReader" in f.name or "HTTPHeadersReader" in f.name)]
    if len(fns) < 2: raise Broken("extraction by all propagators not found")
    off = member(L + "PropagationOptions", "extract_propagators")
    for f in fns:
        bad = None; paths = 0
        k = next((k for k, a in enumerate(f.args) if k), 1)
        for n in range(4 if R.tier == "quick" else 6):
            mem = {("a1", off): Ptr("list", 0), ("a1", off + 8): Ptr("list", 8 * n), ("a1", off + 16): Ptr("list", 8 * n)}
            for j in range(n): mem[("list", 8 * j)] = Ptr(("prop", j)); mem[(("prop", j), 0)] = Ptr(("table", j))
            def oc(fl, p, i, c, A):
                if (callee_of(i) or "").startswith("llvm.") or c in ("memcpy", "memmove", "memset"): return None
                if c.split("::")[-1] == "ExtractSpanContext" or "Propagator" in c:
                    who = next((a.o[1] for a in A[:2] if isinstance(a, Ptr) and isinstance(a.o, tuple) and a.o[0] == "prop"), None)
                    if who is None: raise Broken("%s: which propagator is asked is not tracked (%s)" % (f.q, f.loc(i)))
                    r = A[0]
                    if not isinstance(r, Ptr): raise Broken("%s: where the answer goes is not tracked" % f.q)
                    if not c.endswith("Context") and not c.endswith("slot0"): return "?"
                    m = len(p.ev); h, v = number1(("has", m)), number1(("val", m))
                    for q in range(32): p.mem.pop((r.o, r.k + q), None)
                    p.mem[(r.o, r.k + HAS)] = h; p.mem[(r.o, r.k + VALUE)] = v
                    p.ev.append((who, bits_of(h, 8)[0], bits_of(v, 8)[0], i)); return "?"
                if c in ("__clang_call_terminate", "std::terminate", "abort"): raise Bad(i, "fails")
                return "?"
            fl = Flow(u, f, [Ptr("a%d" % k) if a[1] == "ptr" else None for k, a in enumerate(f.args)], {}, max_steps=4000, on_call=oc, unknown=True, mem=mem, distinct=lambda o: o == "a0" or isinstance(o, tuple))
            try: ends = fl.run()
            except Bad as e: bad = (f.loc(e.i), "%s for %d propagators" % (e.msg, n)); break
            for p, _ in ends:
                paths += 1
                hb, vb = result_of(f, p)
                if [e[0] for e in p.ev] != list(range(len(p.ev))): bad = (f.loc(p.ev[-1][3]), "the propagators are not asked one after another")
                goon = 1    # no answer yet
                for who, h, v, i in p.ev:
                    stop = comb("or", neg(h), v)
                    if not sure(p, goon, 1): bad = (f.loc(i), "another propagator is asked although one has failed or has found a context")
                    if not sure(p, comb("and", comb("and", goon, neg(h)), hb), 0): bad = (f.loc(i), "the failure of a propagator is not reported")
                    if not sure(p, comb("and", comb("and", goon, comb("and", h, v)), neg(comb("and", hb, vb if vb is not None else 0))), 0): bad = (f.loc(i), "the context a propagator found is not given")
                    goon = comb("and", goon, neg(stop))
                if not sure(p, comb("and", goon, 1 if len(p.ev) < n else 0), 0): bad = (f.loc(None), "not all propagators are asked")
                if not sure(p, comb("and", goon, comb("or", neg(hb), vb if vb is not None else 1)), 0): bad = (f.loc(None), "a context nobody found is given, or a failure nobody had")
        R.saw("paths", paths)
        R.ob(rule, "%s/%s" % (f.q, "headers" if "HTTPHeaders" in f.name else "text"), bad is None, bad[0] if bad else f.loc(None), bad[1] if bad else "%d paths" % paths)

# ---- what is injected under a key is what is extracted from it
def seeded(f, cls):
    """every text a header's name may be: the propagator's own members and the program's global texts"""
    mem = {}
    def text(o, k, name):
        mem[(o, k + 8)] = Ptr("key:" + name)
        for j in range(8): mem[(o, k + j)] = 7 if j == 0 else 0
    try: ms = members(L + cls)
    except Broken: ms = []
    for m in ms:
        if "string_view" in m["t"]: text("a1", m["off"], m["n"])
        elif m["sz"] == 1: mem[("a1", m["off"])] = number1((m["n"], 0))
    for i in f.all_instrs():
        for o in i.ops:
            b = o.get("base") if isinstance(o, dict) else o
            if isinstance(b, str) and b.startswith("@") and (b, 8) not in mem: text(b, 0, stem(b))
    return mem
def key_of(fl, p, A):
    """the header names among a call's arguments, given by value or by reference"""
    def name(b):
        if not isinstance(b, Ptr) or not isinstance(b.o, str): return None
        if b.o.startswith("key:"): return b.o
        if b.o.startswith("@"):
            t = table(fl.u.globals.get(b.o[1:], {}))
            if t is not None: return "key=%r" % bytes(t)
    out = []
    for a in A:
        n = name(a)
        if n is None and isinstance(a, Ptr) and isinstance(a.k, int): n = name(p.mem.get((a.o, a.k + 8)))
        if n is not None: out.append(n)
    return out

def pairs(R, rule):
    from checks.hexes import text_of, number, memword
    offs = {m["n"]: (m["off"], m["sz"]) for m in members(L + "TraceContext")}
    ir.program().need("propagation/multiheader", "propagation/trace_context_prop", "propagation/cloud_trace")
    vals = {n: number(n, 64) for n in ("trace_id_high", "trace_id_low", "parent_id")}
    ctx = lambda o: {(o, offs[n][0] + k): word(v[8 * k:8 * k + 8]) for n, v in vals.items() for k in range(8)}
    for cls in ("MultiheaderPropagator", "TraceContextPropagator", "CloudTracePropagator"):
        multi = cls == "MultiheaderPropagator"
        # extraction: which name leads to which fields
        reads = {}
        for c2, needed, u, fns, most in views():
            if c2 != cls: continue
            f = fns[0]; cx = "a4"
            bad = None
            for p, _ in flow(u, f, len(needed), seeded(f, cls), cx):
                hb, vb = result_of(f, p)
                if not (sure(p, hb, 1) and vb is not None and sure(p, vb, 1)): continue
                cur = []
                for e in p.ev:
                    if e[0] == "next": cur = []
                    if e[0] == "cmp" and sure(p, bits_of(e[2], 8)[0], 1): cur.append(e[1])
                    if e[0] == "parse":
                        reads.setdefault(e[1], set()).add(tuple(sorted(set(cur))))
                        want = {"trace identifier": ("trace_id_high", "trace_id_low"), "span identifier": ("parent_id",)}.get(e[1], ())
                        for n in want:
                            g = memword(p, cx, offs[n][0], 8)
                            if g is None or not same(g, number((n, "read"), 64), 64, p.conds): bad = (f.loc(e[3]), "the %s read does not become the context's %s" % (e[1], n))
                        if not want and e[4] != Ptr(cx): bad = (f.loc(e[3]), "the header is not read into the context")
            R.ob(rule, f.q + "/fields", bad is None, bad[0] if bad else f.loc(None), bad[1] if bad else "every header read fills its fields")
            for w in needed:
                if len(reads.get(w, ())) != 1 or len(next(iter(reads[w]))) != 1: raise Broken("%s: which name the %s is read under is not tracked" % (f.q, w))
        want = {w: next(iter(next(iter(s)))) for w, s in reads.items()}
        # injection
        u = ir.view("inject_" + cls, [L + cls + "::InjectSpanContext"], ["std::make_error_code", L + "SerializeTraceContext", L + "CloudTracePropagator::SerializeCloudTrace"], INL)
        for f in [f for f in u.roots if f.q == L + cls + "::InjectSpanContext"]:
            bad = None
            mem = seeded(f, cls); mem.update(ctx("a3"))
            def oc(fl, p, i, c, A):
                if (callee_of(i) or "").startswith("llvm.") or c in ("memcpy", "memmove", "memset"): return None
                if c.split("::")[-2:-1] == ["TextMapWriter"] or c.endswith("TextMapWriter::slot16"):
                    if not isinstance(A[0], Ptr) or len(A) < 6: raise Broken("%s: the arguments of a header are not tracked" % f.q)
                    k = key_of(fl, p, [A[3]]); n = A[4]; txt = None
                    if isinstance(n, int) and isinstance(A[5], Ptr) and isinstance(A[5].k, int): txt = fl.readn(p, i, A[5], n)
                    g = number1(("set", len(p.ev), i.id))
                    for q in range(32): p.mem.pop((A[0].o, A[0].k + q), None)
                    p.mem[(A[0].o, A[0].k + HAS)] = g
                    p.ev.append((k[0] if k else None, txt, bits_of(g, 8)[0], i, A[5])); return "?"
                if c == L + "SerializeTraceContext" or c.endswith("::SerializeCloudTrace"):
                    a = [x for x in A if isinstance(x, Ptr)]
                    cxt, out = a[-2], a[-1]
                    p.strs[("ser", out.o, out.k)] = [cxt]; return "?"
                if "basic_string" in c: return None
                return "?"
            fl = Flow(u, f, [Ptr("a%d" % k) if a[1] == "ptr" else None for k, a in enumerate(f.args)], {}, max_steps=4000, on_call=oc, unknown=True, mem=mem, distinct=lambda o: o == "a0" or isinstance(o, tuple))
            for p, _ in fl.run():
                hb, _v = result_of(f, p)
                ev = p.ev
                for k, txt, g, i, at in ev:
                    if not sure(p, comb("and", hb, neg(g)), 0): bad = (f.loc(i), "a header that could not be set is not reported")
                if sure(p, hb, 0): continue
                for w, name in want.items():
                    h = [e for e in ev if e[0] == name]
                    if len(h) != 1: bad = (f.loc(ev[-1][3] if ev else None), "the %s is not set once under the name it is extracted from" % w); continue
                    k, txt, g, i, at = h[0]
                    if not multi:
                        if p.strs.get(("ser", at.o, at.k)) != [Ptr("a3")]: bad = (f.loc(i), "the header set is not the context's")
                        continue
                    hi, lo, sp = (text_of(vals[n], 64) for n in ("trace_id_high", "trace_id_low", "parent_id"))
                    forms = [hi + lo, lo] if w == "trace identifier" else [sp]
                    if txt is None or not any(len(t) == len(txt) and all(a is not None and same(a, b, 8, p.conds) for a, b in zip(txt, t)) for t in forms): bad = (f.loc(i), "what is set under the name the %s is extracted from is not it" % w)
            R.ob(rule, "%s/%s" % (f.q, "map" if "protobuf" in f.name else "flat"), bad is None, bad[0] if bad else f.loc(None), bad[1] if bad else "every header is set under the name it is read from")
            R.saw("functions")

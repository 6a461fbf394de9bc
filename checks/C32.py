"""Decides on every path: what ComputeStartTimestamps returns for each combination of given timestamps (given ones are kept,
a missing one is derived with the recorder's system-minus-steady difference in the right direction, both missing ones come
from one reading), that the conversions and the difference have that form, that a span's start is taken from the right one
of the two and its duration is the difference of two steady readings, and that durations and instants are broken down
into seconds and fractions with matching units."""
from lib import *
from contract import *
import ir
RULES = {
    "delta": ("the system-steady difference is a system clock reading minus a steady clock reading", 1),
    "convert": ("steady + difference is the system instant, system - difference the steady instant", 2),
    "start": ("start timestamps: what is given is kept, what is missing is derived from the other clock by the recorder's difference, both missing come from one instant", 1),
    "span-start": ("a span writes the system start instant and remembers the steady one", 2),
    "duration": ("a span's duration is its finish minus its start on the steady clock (the clock's current reading if none is given), in microseconds", 3),
    "current": ("the streaming recorder's current system time is the steady reading plus a freshly enough computed difference", 2),
    "units": ("seconds and the fraction of a second are quotient and remainder of one division by the unit", 2),
}
STEADY, SYSTEM = "std::chrono::_V2::steady_clock::now", "std::chrono::_V2::system_clock::now"
L = "lightstep::"
def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    P = ir.program(); P.need("timestamp.cpp", "tracer/", "stream_recorder", "common/")
    u = ir.view("clocks", [L + r"(ComputeSystemSteadyTimestampDelta|ToSystemTimestamp|ToSteadyTimestamp|ProtobufFormatTimestamp|ToTimeval)"])
    delta(R, u, one(u, L + "ComputeSystemSteadyTimestampDelta"))
    for n, s in (("ToSystemTimestamp", 1), ("ToSteadyTimestamp", -1)):
        f = one(u, L + n)
        for i in final_ret(f):
            e = Values(f).op(ret_op(i))
            R.ob("convert", f.q, sub(e, add(atom("arg1"), atom("arg0"), s)) == {}, f.loc(i), "the result is not the instant %s the difference" % ("plus" if s > 0 else "minus"))
    u2 = ir.view("clocks2", [L + r"ComputeStartTimestamps"], barriers=[L + "ComputeSystemSteadyTimestampDelta", L + ".*Recorder::.*"])
    starts(R, u2, one(u2, L + "ComputeStartTimestamps"))
    for q in ("Span", "LegacySpan"): span(R, L + q)
    u = ir.view("clocks", [L + r"(ComputeSystemSteadyTimestampDelta|ToSystemTimestamp|ToSteadyTimestamp|ProtobufFormatTimestamp|ToTimeval)"])
    broken_down(R, u, one(u, L + "ProtobufFormatTimestamp"), 10**9)
    broken_down(R, u, one(u, L + "ToTimeval"), 10**6)
    u3 = ir.view("clocks3", [L + "ToTimestamp"], barriers=["google::protobuf::Timestamp::.*"])
    f = one(u3, L + "ToTimestamp"); v = Values(f); got = {}
    for i in f.all_instrs():
        if i.op in ("call", "invoke") and re.search("::set_(seconds|nanos)$", cname(u3, i)): got[cname(u3, i).split("_")[-1]] = i
    x = quotient(f, v, v.op(got["seconds"].ops[1]), 10**9) if "seconds" in got else None
    src = f.ins.get(next((a for a in x if a != ONE), None)) if x else None
    R.ob("units", f.q, "nanos" in got and x is not None and src is not None and src.op == "load" and v.op(src.ops[0]) == atom("arg1") and len(x) == 1 and
         is_rem(f, v, v.op(got["nanos"].ops[1]), x, 10**9), f.loc(next(iter(got.values()), None)), "seconds and nanoseconds are not the instant's quotient and remainder")
    current(R)
    R.assume("time points and durations of std::chrono's system and steady clocks count nanoseconds (libstdc++)")
    R.assume("instants are after 1970 (opentracing-cpp's SystemTime default)")

def delta(R, u, f):
    t = this_arg(f)
    def ob(i, ok, m): R.ob("delta", f.q, ok, f.loc(i), m)
    def on_call(st, i, c):
        q = cname(u, i)
        for n, g in ((STEADY, "steady"), (SYSTEM, "system")):
            if q == n: st.assign(g, st.ai.v.lin(i.id)); st.set(g, 1); return True
    def on_ret(st, i, r):
        if st.checking:
            R.saw("exits")
            ob(i, st.get("steady") and st.get("system") and st.eq(sub(r, sub(atom("system"), atom("steady")))), "not the system clock's reading minus the steady clock's; facts: " + facts(st))
    Mem(f, on_call=on_call, on_ret=on_ret).run(); R.saw("functions analysed")

def starts(R, u, f):
    v = {}
    def ob(i, ok, m): R.ob("start", f.q, ok, f.loc(i), m)
    S, T = cell(2, 0), cell(3, 0)
    def init(st):
        st.assign("S", atom(S)); st.assign("T", atom(T))
    def on_call(st, i, c):
        q = cname(u, i); r = st.ai.v.lin(i.id) if i.ty and i.ty != "void" else None
        if q == STEADY: st.assign("now", r); st.set("now", 1); return True
        if q == SYSTEM: st.assign("cur", r); st.set("cur", 1); return True
        if q.endswith("::ComputeCurrentSystemTimestamp"):
            st.assign("cur", r); st.assign("curof", st.lin(i.ops[-1])); st.set("cur", 2); return True
        if q.endswith("ComputeSystemSteadyTimestampDelta"): st.assign("delta", r); st.set("delta", 1); return True
    verdicts = []
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        for s0 in (True, False):
            for t0 in (True, False):
                p = st.poly.copy()
                for z, x in ((s0, "S"), (t0, "T")):
                    (p.add_eq if z else p.add_ne)(atom(x))
                if p.bot or not p.feasible(): continue
                eq = lambda e: p.entails_eq(e)
                for order in (0, 1):
                    steady, system = atom(cell(0, 8 * order)), atom(cell(0, 8 - 8 * order))
                    if s0 and t0:
                        why = "neither is given: not one current instant on both clocks"
                        ok = st.get("now") and eq(sub(steady, atom("now"))) and (
                            st.get("cur") == 1 and eq(sub(system, atom("cur"))) or
                            st.get("cur") == 2 and eq(sub(system, atom("cur"))) and eq(sub(atom("curof"), atom("now"))) or
                            st.get("delta") and eq(sub(sub(system, steady), atom("delta"))))
                    elif s0:
                        why = "only the steady instant is given: it is not kept, or the system instant is not it plus the difference"
                        ok = eq(sub(steady, atom("T"))) and st.get("delta") and eq(sub(sub(system, atom("T")), atom("delta")))
                    elif t0:
                        why = "only the system instant is given: it is not kept, or the steady instant is not it minus the difference"
                        ok = eq(sub(system, atom("S"))) and st.get("delta") and eq(add(sub(steady, atom("S")), atom("delta")))
                    else:
                        why = "both instants are given and not both kept"
                        ok = eq(sub(system, atom("S"))) and eq(sub(steady, atom("T")))
                    verdicts.append((order, i, bool(ok), why + "; facts: " + facts(st)))
    Mem(f, init=init, on_call=on_call, on_ret=on_ret, keep=lambda st, i, b: b in (arg(1), arg(2), arg(3)), partition=True).run()
    R.saw("functions analysed")
    use = 0 if all(x[2] for x in verdicts if x[0] == 0) or not all(x[2] for x in verdicts if x[0] == 1) else 1
    for o, i, ok, m in verdicts:
        if o == use: ob(i, ok, m)
    v["order"] = use

PB = r"lightstep::collector::.*"
def is_steady(n, t): return "steady_clock" in t and "time_point" in t
def span(R, Q):
    short = Q.split("::")[-1]
    ctor = ir.view("span_ctor_" + short, [Q + "::" + short], barriers=[L + "ComputeStartTimestamps", L + "Write.*", L + "ToTimestamp", L + "GenerateId.*", Q + "::SetSpanReference", PB, L + "SetSpanReference"])
    f = one(ctor, Q + "::" + short)
    so = member(Q, is_steady, "steady time"); t = this_arg(f)
    oS = member("opentracing::v2::StartSpanOptions", lambda n, ty: "system_clock" in ty); oT = member("opentracing::v2::StartSpanOptions", is_steady)
    def ob(i, ok, m): R.ob("span-start", f.q, ok, f.loc(i) if i is not None else "", m)
    v = Values(f)
    oarg = [n for n, a in enumerate(f.args) if a[0] == "options"] or [len(f.args) - 1]
    def init(st): st.set("w", 0); st.set("k", 0)
    def on_call(st, i, c):
        q = cname(ctor, i)
        if q == L + "ComputeStartTimestamps":
            if st.checking:
                ob(i, st.eq(sub(st.lin(i.ops[2]), add(atom(arg(oarg[0])), const(oS)))) and st.eq(sub(st.lin(i.ops[3]), add(atom(arg(oarg[0])), const(oT)))), "not the options' own start timestamps are used")
            l = m.ptr(st, i.ops[0])
            if l is not None:
                m.set(st, mvar(l[1], l[2]), atom("steady")); m.set(st, mvar(l[1], l[2] + 8), atom("system"))
            st.set("k", 1); return True
        if q == L + "WriteStartTimestamp" or q == L + "ToTimestamp":
            e = st.lin(i.ops[1])
            if q.endswith("ToTimestamp"):
                l = m.loc(st, e); e = atom(l) if l is not None else e
            if st.checking: ob(i, st.get("k") and st.eq(sub(e, atom("system"))), "the start instant written is not the system start timestamp; facts: " + facts(st))
            st.set("w", 1); done(st)
            return True
        if c.startswith("llvm."): return None
        return True     # what other calls do to the members is not looked at: only stores to the remembered start matter
    def done(st):       # what comes after does not matter any more
        if st.get("w") and st.get("k") and st.eq(sub(atom(cell(t, so)), atom("steady"))): st.dead = True
    def on_instr(st, i):
        if i.op in ("store", "call"): done(st)
    def on_store(st, i):
        if i.op != "store": return None
        l = m.ptr(st, i.ops[1])
        if l == cell(t, so) and st.checking and not st.eq(st.lin(i.ops[0])):
            ob(i, st.get("k") and st.eq(sub(st.lin(i.ops[0]), atom("steady"))), "the remembered start is not the steady start timestamp; facts: " + facts(st))
        return None
    def on_ret(st, i, r):
        if st.checking:
            R.saw("exits"); ob(i, st.get("k") and st.get("w"), "the span's start is not recorded")
            ob(i, st.eq(sub(atom(cell(t, so)), atom("steady"))), "the steady start is not remembered; facts: " + facts(st))
    m = Mem(f, init=init, on_call=on_call, on_ret=on_ret, on_store=on_store, on_instr=on_instr, keep=lambda st, i, b: True); m.run()
    R.saw("functions analysed")
    # finish
    name = "FinishImpl" if short == "Span" else "FinishWithOptions"
    u = ir.view("span_finish_" + short, [Q + "::FinishWithOptions", Q + "::FinishImpl"], barriers=[L + "WriteDuration", L + "WriteLog", L + "ToLog", PB])
    def dur(f):
        v = Values(f)
        def ob(i, ok, m): R.ob("duration", Q + "::Finish", ok, f.loc(i) if i is not None else "", m)
        t = this_arg(f); opt = cell(t + 1, member("opentracing::v2::FinishSpanOptions", is_steady))
        def init(st): st.assign("F", atom(opt)); st.assign("B", atom(cell(t, so))); st.set("now", 0)
        def on_call(st, i, c):
            q = cname(u, i)
            if q == STEADY: st.assign("now", st.ai.v.lin(i.id)); st.set("now", 1); return True
            if q == L + "WriteDuration" or q.endswith("::set_duration_micros"):
                if st.checking:
                    R.saw("durations written")
                    e = st.lin(i.ops[1])
                    if q != L + "WriteDuration":
                        x = quotient(f, v, e, 1000)
                        if x is None: ob(i, False, "the duration is not in microseconds"); return True
                        e = x
                    for z in (True, False):
                        p = st.poly.copy(); (p.add_eq if z else p.add_ne)(atom("F"))
                        if p.bot or not p.feasible(): continue
                        fin = atom("now") if z else atom("F")
                        ob(i, (not z or st.get("now")) and p.entails_eq(sub(e, sub(fin, atom("B")))), "the duration is not the %s minus the steady start; facts: %s" % ("steady clock's reading" if z else "given finish", facts(st)))
                st.dead = True      # what follows does not matter here
                return True
            if "::RecordSpan" in q:
                if st.checking: ob(i, False, "the span is recorded without its duration")
            return None
        Mem(f, init=init, on_call=on_call, keep=lambda st, i, b: b in (arg(t), arg(t + 1))).run(); R.saw("functions analysed")
    fs = [f for f in u.roots if any(cname(u, i) == L + "WriteDuration" or cname(u, i).endswith("::set_duration_micros") for i in f.all_instrs() if i.op in ("call", "invoke"))]
    if not fs: R.ob("duration", Q + "::Finish", False, "", "no duration is recorded when a span finishes")
    for f in fs: dur(f)
    if short == "Span":
        w = ir.view("write_duration", [L + "WriteDuration"]); f = one(w, L + "WriteDuration"); v = Values(f)
        for i in f.all_instrs():
            if i.op in ("call", "invoke") and re.search(r"::WriteVarint64(ToArray)?$|WriteBigVarint64$|WriteVarint64.*$", cname(w, i)):
                cand = [quotient(f, v, v.op(o), 1000) for o in i.ops]
                R.saw("durations written")
                R.ob("duration", f.q, any(x == atom("arg1") for x in cand if x is not None), f.loc(i), "the duration written is not the span's in microseconds")

def quotient(f, v, e, n):
    """x if e is x divided by n"""
    a = [x for x in e if x != ONE]
    if len(e) != 1 or len(a) != 1 or e[a[0]] != 1: return None
    i = f.ins.get(a[0]) if not isinstance(a[0], tuple) else None
    if i is None or i.op not in ("udiv", "sdiv"): return None
    d = v.op(i.ops[1])
    return v.op(i.ops[0]) if is_const(d) and cval(d) == n else None
def is_rem(f, v, e, x, n):
    a = [y for y in e if y != ONE]
    if len(e) == 1 and len(a) == 1 and e[a[0]] == 1:
        i = f.ins.get(a[0]) if not isinstance(a[0], tuple) else None
        if i is not None and i.op in ("urem", "srem"):
            return v.op(i.ops[0]) == x and is_const(v.op(i.ops[1])) and cval(v.op(i.ops[1])) == n
    r = sub(x, e)       # x - n * (x / n)
    return quotient(f, v, scale(r, F(1, n)), n) == x

def broken_down(R, u, f, n):
    """the two results are x / n and x % n for the argument x"""
    v = Values(f)
    def ob(i, ok, m): R.ob("units", f.q, ok, f.loc(i), m)
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits"); t = this_arg(f)
        if t:
            vals = [st.poly.reduce(atom(cell(0, k))) for k in (0, 8)]
            x = st.poly.reduce(atom(cell(1, 0)))
        else:
            j = f.val(ret_op(i)); vals = []
            while j is not None and j.op == "insertvalue": vals.append(v.op(j.ops[1])); j = f.val(j.ops[0])
            x = atom("arg0")
        # name values by their defining instructions
        def name(e):
            for k in f.ins:
                if f.ins[k].op in ("udiv", "sdiv", "urem", "srem") and st.eq(sub(e, v.lin(k))): return v.lin(k)
            return e
        vals = [name(e) for e in vals]
        good = False
        for a, b in ((1, 0),):      # the quotient is the tuple's first element (stored last) or the structure's first member
            if len(vals) == 2:
                q = quotient(f, v, vals[a], n)
                if q is not None and (st.eq(sub(q, x))) and is_rem(f, v, vals[b], q, n): good = True
                elif q is not None and st.eq(sub(q, x)) and st.eq(sub(sub(q, vals[b]), scale(vals[a], n))): good = True
        ob(i, good, "not the argument's quotient and remainder by %d" % n)
    Mem(f, on_ret=on_ret, keep=lambda st, i, b: b == arg(1)).run(); R.saw("functions analysed")

def current(R):
    cls = L + "StreamRecorderImpl"
    SR = L + "StreamRecorder"
    off = member(cls, lambda n, t: n == "timestamp_delta_", "timestamp_delta_")
    u = ir.view("stream_clock", [SR + "::ComputeCurrentSystemTimestamp", SR + "::ComputeSystemSteadyTimestampDelta"], barriers=[L + "ComputeSystemSteadyTimestampDelta"])
    for n in ("ComputeCurrentSystemTimestamp", "ComputeSystemSteadyTimestampDelta"):
        f = one(u, SR + "::" + n); v = Values(f)
        def is_delta(e):
            a = [x for x in e if x != ONE]
            if len(e) != 1 or e[a[0]] != 1: return False
            i = f.ins.get(a[0])
            if i is None: return False
            if i.op in ("call", "invoke"): return cname(u, i) == L + "ComputeSystemSteadyTimestampDelta"
            if i.op != "load": return False
            p = v.op(i.ops[0]); b = [x for x in p if x != ONE]
            return len(b) == 1 and p[b[0]] == 1 and cval(p) == off and "ord" in i.d
        for i in final_ret(f):
            e = v.op(ret_op(i)); R.saw("exits")
            if n == "ComputeCurrentSystemTimestamp": R.ob("current", f.q, is_delta(sub(e, atom("arg1"))), f.loc(i), "not the steady reading plus the system-steady difference")
            else: R.ob("current", f.q, is_delta(e), f.loc(i), "not the system-steady difference")
    # every assignment of the cached difference
    P = ir.program(); n = 0
    w = ir.view("stream_impl_clock", [cls + r"::[^~]*"], barriers=[L + "ComputeSystemSteadyTimestampDelta", L + "(Satellite|Event|Timer|Circular|Chained|Metrics|Logger|Span).*"])
    for f in w.roots:
        v = Values(f); t = this_arg(f)
        for i in f.all_instrs():
            if i.op == "store" and ptr_arg_off(v.op(i.ops[1]), t) == off and f.q.startswith(cls):
                n += 1; x = f.val(i.ops[0])
                ok = x is not None and x.op in ("call", "invoke") and cname(w, x) == L + "ComputeSystemSteadyTimestampDelta"
                R.ob("current", cls + " cached difference", ok, f.loc(i), "the cached difference is assigned something else")
    R.saw("assignments of the cached difference", n)
    if not n: R.ob("current", cls + " cached difference", False, "", "the cached difference is never computed")

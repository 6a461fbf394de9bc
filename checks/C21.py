"""A span is handed to its recorder by the one finish that wins, if it is sampled, and what was handed over is not written to afterwards."""
from lib import *
from absint import Values
from checks.locks import lock_op
from checks.paths import Paths
import ir
RULES = {
    "once": ("a span is given to the recorder only where the finish won the exchange of the finished flag, and only once", 2),
    "sampled": ("a span is given to the recorder only where its sampled flag was found set", 2),
    "reported": ("a finish that won records the span, unless it is not sampled or something failed", 2),
    "finishes": ("finishing and destroying a span both claim the finished flag or find it claimed", 4),
    "frozen": ("what is handed to the recorder by reference is only written to with the lock held and the span found unfinished since it was taken", 5),
    "copied": ("what is handed over to be copied cannot be changed or kept through it", 1),
}
N = "lightstep::"; MASK = 1
BARRIERS = [r"lightstep::(Recorder|Logger|ChainedStream|SpinLockMutex|Write[A-Z].*|ToKeyValue|ToLog|ComputeStart.*|AppendTraceState|GenerateId.*|ToLower|is_sampled|BaggageFlatMap|FlatMap.*).*",
            r"std::(function|__cxx11|basic_|vector|chrono|shared_ptr|unique_ptr|tuple|mutex).*", r"google::.*", r"lightstep::collector::.*", "opentracing::.*"]

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    P = ir.program(); P.need("tracer/span.cpp", "tracer/legacy/legacy_span.cpp")
    R.assume("opentracing::Span::Finish calls FinishWithOptions, and nobody uses a span while it is destroyed")
    u = ir.view("spans", [N + "(Span|LegacySpan)::.*"], BARRIERS)
    for c in ("Span", "LegacySpan"): span(R, P, u, c)

def span(R, P, u, c):
    q = N + c
    flag = member(q, lambda n, t: re.match(r"^std::atomic<bool>$|^std::atomic_bool$", t), "atomic flag")
    flags = member(q, "trace_flags_")
    rec = P.record(q)
    shared = [(e["off"], e["off"] + e["size"] if e.get("size") else None, e["n"]) for e in members(q) if re.match(r"^(lightstep::)?(DirectCodedOutputStream|ChainedStream|google::protobuf::io::CodedOutputStream)|^std::unique_ptr<lightstep::ChainedStream", e["t"])]
    offs = sorted(e["off"] for e in members(q))
    shared = [(a, b or next((o for o in offs if o > a), a + 8), n) for a, b, n in shared]
    fs = [f for f in u.roots if f.scope and strip_templates(f.scope) == q and not f.name.endswith("D0Ev")]
    for f in fs:
        n = strip_templates(f.dname or f.q.split("::")[-1])
        if n == c or access(f) == "private": continue         # judged in their callers; nobody else knows a span under construction
        analyse(R, u, f, n, c, flag, flags, shared)
    names = {strip_templates(f.dname or "") for f in fs}
    for n in ("FinishWithOptions", "~" + c):
        if n not in names: raise Broken("%s::%s not found" % (q, n))
    if c == "Span" and not shared: raise Broken("Span: its stream is not found")
    if c == "LegacySpan":
        for g in P.fns.values():
            if re.match(r"^lightstep::\w*Recorder::RecordSpan$", g.q) and g.pt and len(g.pt) == 3 and "collector::Span" in str(g.pt[-1]):
                R.ob("copied", g.q, bool(re.match(r"^&const ", str(g.pt[-1]))) , "%s:%s" % (ir.relpath(g.file or ""), g.line), "the recorder may take or change the span it should copy")

def analyse(R, u, f, name, c, flag, flags, shared):
    v = Values(f); this = "arg%d" % this_arg(f)
    label = "%s%s::%s" % (N, c, name)
    def field(o):
        """offset into the span, or None"""
        e = v.op(o)
        a = [x for x in e if x != ONE]
        return int(cval({ONE: e.get(ONE, 0)})) if len(a) == 1 and a[0] == this and e[a[0]] == 1 else None
    claims, reads, sampled = set(), set(), set()
    for i in f.all_instrs():
        if i.op == "atomicrmw" and i.d.get("rmw") == "xchg" and field(i.ops[0]) == flag and str(i.ops[1]) in ("1", "true"): claims.add((i.id, False))
        elif i.op == "atomicrmw" and i.d.get("rmw") == "or" and field(i.ops[0]) == flag and str(i.ops[1]) == "1": claims.add((i.id, False))
        elif i.op == "cmpxchg" and field(i.ops[0]) == flag and starts_false(f, i.ops[1]) and str(i.ops[2]) in ("1", "true"):
            for j in f.all_instrs():
                if j.op == "extractvalue" and j.ops[0] == "%%%d" % i.id and j.ty == "i1": claims.add((j.id, True))
        elif i.op == "load" and field(i.ops[0]) == flag: reads.add(i.id)
        elif i.op == "and" and str(i.ops[1]) == str(MASK):
            o = f.val(i.ops[0])
            while o is not None and o.op in ("zext", "sext", "trunc"): o = f.val(o.ops[0])
            if o is not None and o.op == "load" and field(o.ops[0]) == flags: sampled.add(i.id)
    def named(i): return vcall_name(callee_of(i)) if (callee_of(i) or "").startswith("vcall$") else cname(u, i)
    def is_record(i): return i.op in ("call", "invoke") and re.search(r"(^|::)\w*Recorder::RecordSpan$", named(i) or "")
    def finish_call(i): return i.op in ("call", "invoke") and re.search(r"(^opentracing::(v\d+::)?Span::Finish|::(%s|Span)::FinishWithOptions)$" % c, strip_templates(named(i) or "")) 
    # trunc of a flag's bit is the fact that branches are about
    def won(s): return any(s.get(("claim", x)) is w for x, w in claims)
    def lost(s): return any(s.get(("claim", x)) is (not w) for x, w in claims)
    def note(s):
        """remember what is known about flags beyond the life of the values"""
        for x, w in claims:
            if x in s: s[("claim", x)] = s[x]
        for x in reads:
            if x in s and ("read", x) in s: s[("read", x)] = s[x]
        for x in sampled:
            if x in s: s[("sampled", x)] = s[x]
    def step(s, i):
        note(s)
        if i.id in {x for x, w in claims}: s.pop(("claim", i.id), None)
        k = lock_op(f, v, i)
        if k:
            s["locked"] = k[0] == "+"
            for x in list(s):
                if isinstance(x, tuple) and x[0] == "read": del s[x]
        if i.id in reads: s[("read", i.id)] = None
        if is_record(i): s["recorded"] = True
        if finish_call(i): s["finish"] = True
    p = Paths(f, step, {})
    p_used = any(is_record(i) for i in f.all_instrs())
    R.saw("functions of spans analysed")
    def visit(s, i):
        s = dict(s); note(s)
        if is_record(i):
            R.ob("once", label, won(s) and not s.get("recorded"), f.loc(i), "the span is recorded a second time on one path" if won(s) else "the span may be recorded although another finish has recorded it, or will")
            R.ob("sampled", label, any(s.get(("sampled", x)) is True for x in sampled), f.loc(i), "a span may be recorded without being sampled")
        elif i.op == "ret":
            failed = "unwinding" in s
            if claims: R.ob("reported", label, not won(s) or failed or bool(s.get("recorded")) or any(s.get(("sampled", x)) is False for x in sampled), f.loc(i), "a sampled span may be finished without being recorded, and can never be recorded then")
            if name in ("FinishWithOptions", "~" + c):
                done = won(s) or lost(s) or s.get("finish") or any(s.get(x) is True or s.get(("read", x)) is True for x in reads)
                R.ob("finishes", label, bool(done) or failed, f.loc(i), "the span may be left unfinished")
        if i.op in ("call", "invoke", "store") and not is_record(i) and not name.startswith("~"):
            t = touched(i)
            if t and not (callee_of(i) or "").startswith("llvm."):
                ok = s.get("locked") and (won(s) or any(s.get(("read", x)) is False for x in reads)) and not s.get("recorded")
                R.ob("frozen", label, bool(ok), f.loc(i), "%s may be used although the span has been handed to its recorder" % t)
        elif name.startswith("~") and i.op in ("call", "invoke") and claims and not is_record(i) and not re.search("~", named(i) or ""):
            t = touched(i)
            if t: R.ob("frozen", label, won(s) and not s.get("recorded"), f.loc(i), "%s may be used although the span has been handed to its recorder" % t)
    def touched(i):
        for o in (i.ops if i.op != "store" else i.ops[1:]):
            x = field(o) if isinstance(o, str) and o.startswith("%") else None
            if x is None: continue
            for a, b, n in shared:
                if a <= x < b: return n
        return None
    p.each(visit)
    if name in ("FinishWithOptions",) and not p_used:
        R.ob("reported", label, False, "%s:%s" % (ir.relpath(f.file or ""), f.line), "finishing does not record the span")

def starts_false(f, o):
    """a compare-exchange's expectation that is false the first time"""
    if str(o) in ("0", "false"): return True
    i = f.val(o)
    if i is None or i.op != "load": return False
    a = f.val(i.ops[0])
    if a is None or a.op != "alloca": return False
    c = [str(x.ops[0]) for x in f.all_instrs() if x.op == "store" and x.ops[1] == i.ops[0] and not str(x.ops[0]).startswith("%")]
    return bool(c) and all(x in ("0", "false") for x in c)

"""Decides, by following the fork handlers over every shape of the list of recorders up to a bound, that each recorder is told exactly
once, and, on every path of the recorders' own handlers, that nothing is shared with or inherited by the child."""
from lib import *
import ir
from checks.bitfn import *
RULES = {
    "register": ("the three handlers are registered before the first recorder is in the list, each in its own place", 2),
    "told": ("each handler tells every recorder in the list exactly once, of its own event, under the lock", 3),
    "list": ("a recorder is put in the list once, and taken out without losing another", 2),
    "quiet": ("before a fork the recorder's connections and thread are gone", 1),
    "resume": ("after a fork both processes have a new event loop of their own", 2),
    "afresh": ("nothing buffered, counted or pending before the fork is left in the child when it starts", 3),
}
L = "lightstep::"; F = L + "ForkAwareRecorder"
EVENTS = {"PrepareForkHandler": "PrepareForFork", "ParentForkHandler": "OnForkedParent", "ChildForkHandler": "OnForkedChild"}
def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    P = ir.program(); P.need("fork_aware_recorder", "stream_recorder/stream_recorder.", "manual_recorder", "fork_unix")
    nxt = member(F, lambda n, t: "ForkAwareRecorder" in t and "*" in t)
    lists(R, nxt); recorders(R)
    R.assume("lists of at most 4 recorders; the handlers are run by the thread that forks, and no other thread uses the recorders meanwhile, as documented")

def prologue(u, fl_mem):
    for g in u.globals:
        if g.startswith("_ZGV"): fl_mem[("@" + g, 0)] = 0
def lib(ev_lock=True):
    def oc(fl, p, i, c, A):
        raw = callee_of(i) or ""
        if c in ("__gthread_mutex_lock", "pthread_mutex_lock"): p.ev.append(("lock",)); return 0
        if c in ("__gthread_mutex_unlock", "pthread_mutex_unlock"): p.ev.append(("unlock",)); return 0
        if c == "__cxa_guard_acquire": return 1
        if c in ("__cxa_guard_release", "__cxa_atexit", "__clang_call_terminate"): return 0
        if c == "pthread_atfork": p.ev.append(("atfork", A)); return 0
        if c == L + "AtFork": p.ev.append(("atfork", A)); return 0
        m = re.match(r"lightstep::(?:[A-Za-z]*Recorder)::(PrepareForFork|OnForkedParent|OnForkedChild)$", c)
        if m: p.ev.append((m.group(1), A[0])); return "?"
        m = re.match(r"vcall\$.*\$(\d+)$", raw)
        if m: p.ev.append(("virtual", int(m.group(1)), A[0])); return "?"
        if c in ("std::__throw_system_error",): raise Bad(i, "fails")
        return None
    return oc
def head_global(u):
    g = [x for x in u.globals if "ForkAwareRecorder" in x and "active_recorders" in x]
    if len(g) == 1: return "@" + g[0]
    g = [x for x in u.globals if re.match(r"_ZN9lightstep17ForkAwareRecorder\d+\w+E$", x) and not u.globals[x].get("const") and "mutex" not in x]
    if len(g) != 1: raise Broken("the head of the list of recorders is not found")
    return "@" + g[0]
def chain(n, head, nxt):
    mem = {(head, 0): Ptr("r0") if n else 0}
    for k in range(n): mem[("r%d" % k, nxt)] = Ptr("r%d" % (k + 1)) if k + 1 < n else 0
    return mem
def walk(mem, head, nxt):
    out = []; x = mem.get((head, 0), 0)
    while isinstance(x, Ptr):
        if x in out or len(out) > 9: return None
        out.append(x); x = mem.get((x.o, nxt), None if x.o.startswith("r") else 0)
    return out if x == 0 else None
def slot(f, which):
    """offset of the event's method in the table of virtual functions"""
    return None
def report(R, rule, inst, u, f, fn):
    try: msg, loc = fn(), f.loc(None)
    except Bad as e: msg, loc = e.msg, f.loc(e.i)
    R.ob(rule, inst, msg is None, loc, msg or ""); R.saw("functions")
def lists(R, nxt):
    bar = [L + r"(ForkAwareRecorder|StreamRecorder|ManualRecorder)::(PrepareForFork|OnForkedParent|OnForkedChild)"]
    for h, e in EVENTS.items():
        u = ir.view("fork_" + h, [F + "::" + h], barriers=bar); f = one(u, F + "::" + h); head = head_global(u)
        def go():
            slots = set()
            for n in range(5):
                mem = chain(n, head, nxt); prologue(u, mem)
                for p, _ in Flow(u, f, [], {}, mem=mem, on_call=lib(), unknown=True, distinct=lambda o: isinstance(o, str) and bool(re.match(r'r\d$|this$', o))).run():
                    locked = 0; told = []
                    for x in p.ev:
                        if x[0] == "lock": locked += 1
                        elif x[0] == "unlock": locked -= 1
                        elif x[0] in EVENTS.values() or x[0] == "virtual":
                            if x[0] == "virtual": slots.add(x[1])
                            elif x[0] != e: return "tells recorders %s instead of %s" % (x[0], e)
                            if locked <= 0: return "the list is walked without its lock"
                            told.append(x[-1])
                    if locked: return "the lock is not released"
                    if sorted(told, key=repr) != [Ptr("r%d" % k) for k in range(n)]: return "of %d recorders, %s are told" % (n, told)
                    if walk(p.mem, head, nxt) != [Ptr("r%d" % k) for k in range(n)]: return "the list is changed"
                R.saw("list shapes")
            want = slots_of().get(e)
            if slots and slots != {want}: return "another event than %s is announced" % e
        report(R, "told", F + "::" + h, u, f, go)
    # constructor and destructor
    n = F + "::ForkAwareRecorder"; u = ir.view("fork_ctor", [n], barriers=bar); f = one(u, n); head = head_global(u)
    hands = []
    def ctor():
        for k in range(4):
            mem = chain(k, head, nxt); prologue(u, mem)
            for p, _ in Flow(u, f, [Ptr("this")], {}, mem=mem, on_call=lib(), unknown=True, distinct=lambda o: isinstance(o, str) and bool(re.match(r'r\d$|this$', o))).run():
                w = walk(p.mem, head, nxt)
                if w is None or sorted(w, key=repr) != sorted([Ptr("this")] + [Ptr("r%d" % j) for j in range(k)], key=repr): return "the list is not the one before and the new recorder"
                a = [x for x in p.ev if x[0] == "atfork"]
                hands.append((a, p.ev.index(a[0]) < p.ev.index(("lock",)) if a and ("lock",) in p.ev else bool(a)))
                if p.ev.count(("lock",)) != p.ev.count(("unlock",)) or ("lock",) not in p.ev: return "the list is changed without its lock"
            R.saw("list shapes")
    report(R, "list", n, u, f, ctor)
    def reg():
        for a, before in hands:
            if len(a) != 1: return "the handlers are registered %d times when the first recorder is made" % len(a)
            names = [re.sub(r"\$\d+$", "", x.o[1:]) if isinstance(x, Ptr) and isinstance(x.o, str) else None for x in a[0][1][:3]]
            want = ["_ZN9lightstep17ForkAwareRecorder%d%sEv" % (len(h), h) for h in ("PrepareForkHandler", "ParentForkHandler", "ChildForkHandler")]
            if names != want: return "the handlers registered are %s" % names
        if not hands: return "the constructor is not followed"
    report(R, "register", n, u, f, reg)
    def guard():
        # once: behind a function-local static's guard
        ua = ir.view("fork_setup", [n], barriers=bar)
        g = {x: one(ua, n) for x in ("f",)}["f"]
        mem = chain(1, head, nxt)
        for x in ua.globals:
            if x.startswith("_ZGV"): mem[("@" + x, 0)] = 1
        for p, _ in Flow(ua, g, [Ptr("this")], {}, mem=mem, on_call=lib(), unknown=True, distinct=lambda o: isinstance(o, str) and bool(re.match(r'r\d$|this$', o))).run():
            if any(x[0] == "atfork" for x in p.ev): return "the handlers are registered again for a later recorder"
    report(R, "register", n + "/once", u, f, guard)
    d = F + "::~ForkAwareRecorder"; u = ir.view("fork_dtor", [d], barriers=bar)
    fs = [x for x in u.roots if "D2" in x.name] or u.roots; f = fs[0]; head = head_global(u)
    def dtor():
        for k in range(1, 5):
            for j in range(k):
                mem = chain(k, head, nxt); prologue(u, mem)
                for p, _ in Flow(u, f, [Ptr("r%d" % j)], {}, mem=mem, on_call=lib(), unknown=True, distinct=lambda o: isinstance(o, str) and bool(re.match(r'r\d$|this$', o))).run():
                    w = walk(p.mem, head, nxt)
                    if w != [Ptr("r%d" % x) for x in range(k) if x != j]: return "taking out recorder %d of %d leaves %s" % (j, k, w)
                    if p.ev.count(("lock",)) != p.ev.count(("unlock",)) or ("lock",) not in p.ev: return "the list is changed without its lock"
                R.saw("list shapes")
    report(R, "list", d, u, f, dtor)
def slots_of():
    """offset of each event's method in the virtual table (all recorders agree)"""
    P = ir.program(); out = {}
    for off, names in P.vtables().get("_ZTSN9lightstep17ForkAwareRecorderE", {}).items():
        for e in EVENTS.values():
            if any(re.search(r"\d%sEv" % e, x) for x in names): out[e] = off
    return out

BAR = [L + r"StreamRecorderImpl::.*", L + r"CircularBuffer::(Consume|Clear|size|empty|production_count|consumption_count)", L + r"MetricsTracker::.*", r"std::default_delete::.*", "operator.new", "operator.delete"]
def recorders(R):
    S = L + "StreamRecorder"
    impl = member(S, lambda n, t: "StreamRecorderImpl" in t)
    ms = {m["n"]: m for m in members(S)}
    buf = member(S, lambda n, t: "CircularBuffer" in t)
    def follow(q, this0, extra=None):
        u = ir.view("fork_" + q.split("::", 1)[1].replace("::", "_"), [q], barriers=BAR); f = one(u, q)
        def oc(fl, p, i, c, A):
            if c == "operator new": p.ev.append(("new",)); return Ptr(("new", i.id))
            if c == "operator delete": return 0
            if c == "std::default_delete::operator()": p.ev.append(("delete", A[-1])); return 0
            if c.startswith(L + "StreamRecorderImpl::"):
                last = c.split("::")[-1]
                p.ev.append(("start", A) if last == "StreamRecorderImpl" else ("delete", A[0]) if last.startswith("~") else ("impl", last)); return "?"
            if c.startswith(L + "CircularBuffer::"):
                last = c.split("::")[-1]
                if last in ("Clear", "Consume"):
                    n = A[1] if last == "Consume" and len(A) > 1 else Ptr("SIZE")
                    if n == Ptr("SIZE") and A[0] == Ptr("this", extra[0]): p.ev.append(("cleared",))
                    return "?"
                return Ptr({"size": "SIZE", "production_count": "PROD", "consumption_count": "CONS"}.get(last, "?"))
            if c.startswith(L + "MetricsTracker::"):
                p.ev.append(("metrics", c.split("::")[-1])); return "?"
            return lib()(fl, p, i, c, A)
        mem = dict(this0); prologue(u, mem)
        return u, f, lambda: [p for p, _ in Flow(u, f, [Ptr("this")], {}, mem=mem, on_call=oc, unknown=True).run()]
    OLD = Ptr("old")
    u, f, run = follow(S + "::PrepareForFork", {("this", impl): OLD}, (buf,))
    def prep():
        for p in run():
            if p.mem.get(("this", impl)) != 0: return "the recorder keeps its event loop and connections across the fork"
            if p.ev.count(("delete", OLD)) != 1: return "the event loop and connections are not destroyed before the fork"
    report(R, "quiet", S + "::PrepareForFork", u, f, prep)
    for q in ("OnForkedParent", "OnForkedChild"):
        u, f, run = follow(S + "::" + q, {("this", impl): 0}, (buf,))
        def res():
            for p in run():
                x = p.mem.get(("this", impl)); st = [e for e in p.ev if e[0] == "start"]
                if not isinstance(x, Ptr): return "no new event loop is made"
                if len(st) != 1 or st[0][1][0] != x or st[0][1][1] != Ptr("this"): return "the recorder's event loop is not the one that was started for it"
        report(R, "resume", S + "::" + q, u, f, res)
    zero = {n: m for n, m in ms.items() if "pending_flush" in n}
    u, f, run = follow(S + "::OnForkedChild", {("this", impl): 0, ("this", ms["num_spans_consumed_"]["off"] if "num_spans_consumed_" in ms else -1): Ptr("BEFORE")}, (buf,))
    M = L + "ManualRecorder"; mbuf = member(M, lambda n, t: "CircularBuffer" in t)
    um, fm, runm = follow(M + "::OnForkedChild", {}, (mbuf,))
    def dropped(run):
        def go():
            for p in run():
                k = p.ev.index(("metrics", "ConsumeDroppedSpans")) if ("metrics", "ConsumeDroppedSpans") in p.ev else None
                s = [j for j, e in enumerate(p.ev) if e[0] == "start"]
                if k is None: return "spans dropped before the fork are also counted by the child"
                if s and s[0] < k: return "the child starts before the dropped spans are forgotten"
        return go
    def cleared(run):
        def go():
            for p in run():
                k = p.ev.index(("cleared",)) if ("cleared",) in p.ev else None
                s = [j for j, e in enumerate(p.ev) if e[0] == "start"]
                if k is None: return "spans buffered before the fork stay in the child's buffer"
                if s and s[0] < k: return "the child starts before the buffer is emptied"
        return go
    report(R, "afresh", S + "/buffer", u, f, cleared(run)); report(R, "afresh", M + "/buffer", um, fm, cleared(runm))
    report(R, "afresh", S + "/dropped", u, f, dropped(run)); report(R, "afresh", M + "/dropped", um, fm, dropped(runm))
    def counts():
        for p in run():
            off = ms["num_spans_consumed_"]["off"]
            if p.mem.get(("this", off)) not in (Ptr("PROD"), Ptr("CONS")): return "the number of spans consumed is not that of the emptied buffer"
            for n, m in zero.items():
                if memint(p, m) != 0: return n + " is not reset"
    def memint(p, m):
        bs = [p.mem.get(("this", m["off"] + k)) for k in range(m["sz"])]
        return None if any(not isinstance(b, int) for b in bs) else sum(b << 8 * k for k, b in enumerate(bs))
    if "num_spans_consumed_" not in ms or not zero: raise Broken("StreamRecorder's counters are not found")
    report(R, "afresh", S + "/counts", u, f, counts)
    # the new event loop is active: a shutdown before the fork is no longer in effect
    act = [m for n, m in ms.items() if re.search(r"active", n) and m["t"] == "bool"]
    if len(act) != 1: raise Broken("StreamRecorder's activity flag is not found")
    for q in ("OnForkedParent", "OnForkedChild"):
        u2, f2, run2 = follow(S + "::" + q, {("this", impl): 0}, (buf,))
        def active():
            for p in run2():
                if memint(p, act[0]) != 1: return "after a shutdown and a fork the new event loop is active, but the recorder still says it is not: a later shutdown does not wait for it"
        report(R, "afresh", S + "::" + q + "/active", u2, f2, active)

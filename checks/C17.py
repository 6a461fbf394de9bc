"""Waits look again at what they wait for; what can end a wait is changed under the waiter's lock and then announced; threads are told to stop before they are joined."""
from lib import *
from contract import *
from poly import scale
from checks.locks import *
from checks.effects import *
from checks.C16 import held, own_lock, op, rx
import ir
RULES = {
    "rechecks": ("every wait on a condition variable is given a condition that it checks again whenever it wakes", 4),
    "under-lock": ("what the condition of a wait reads is changed only while the lock of that wait is held, so that no change falls between checking and sleeping", 4),
    "notified": ("every change that can make the condition true is followed by waking all waiters, on every path", 4),
    "passed-on": ("the condition-variable wrapper hands lock, deadline and condition to the real one and wakes all waiters", 3),
    "told-first": ("a thread is told to stop before it is joined, on every path", 2),
    "stops": ("the event loop's thread leaves its loop once it is told to stop", 1),
    "requested": ("a flush or shutdown that is asked for is acted on the next time the event loop looks, and no request is lost", 3),
}
N = "lightstep::"
CV = re.compile(r"^std::(_V2::)?condition_variable(_any)?::(wait|wait_for|wait_until|notify_one|notify_all)$")
WRAP = re.compile(r"ConditionVariableWrapper::(WaitFor|WaitUntil|NotifyAll)$")
FORK = {"PrepareForFork", "OnForkedParent", "OnForkedChild"}        # no other thread of the recorder runs then
GROWS = {"AddSpan"}           # the methods of a member object that can make a condition on it true
BARRIERS = ["opentracing::.*", "std::unique_lock.*", "std::function.*", "std::condition_variable.*", "std::_V2::.*", "std::thread.*", "std::basic_.*", "std::__cxx11.*", "google::.*"]

def callee_q(c):
    if not c: return ""
    if c.startswith("vcall$"): return vcall_name(c)
    g = prog_fn(c)
    return strip_templates(g.q if g else c)

def kind(i):
    if i.op not in ("call", "invoke"): return None
    q = callee_q(callee_of(i))
    m = CV.match(q)
    if m: return m.group(3)
    m = WRAP.search(q)
    return m.group(1) if m else None

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    P = ir.program()
    P.need("recorder/auto_recorder.cpp", "recorder/stream_recorder/stream_recorder.cpp", "recorder/stream_recorder/stream_recorder_impl.cpp")
    R.assume("the event loop's polling timer fires again and again (C24 decides that timers are armed)")
    waiters = {}
    for f in P.repo_fns():
        for i, c in calls_of(f):
            q = callee_q(c)
            if (CV.match(q) or WRAP.search(q)) and not f.q.startswith(N + "StandardConditionVariableWrapper"): waiters.setdefault(f.q.split("::(lambda")[0].split("()")[0].rsplit("::", 1)[0], []).append(f)
    if len(waiters) < 2: raise Broken("classes waiting on condition variables not found")
    for c in sorted(waiters): waiting(R, P, c, {f.q for f in waiters[c]})
    wrapper(R, P); threads(R, P); requests(R, P)

# -- waiting and waking ------------------------------------------------------------------
def waiting(R, P, c, direct):
    mem = members(c)
    own = sorted({f.q for f in P.repo_fns() if f.q.startswith(c + "::")})
    other = sorted({f.q for f in P.repo_fns() if f.q.startswith(N) and f.q not in own})
    u = ir.view("wait-" + c.split("::")[-1], [rx(q) for q in own], [rx(q) for q in other] + BARRIERS)
    def mem_at(off):
        x = [m for m in mem if m["off"] <= off < m["off"] + max(m["sz"], 1)]
        return x[0]["n"] if x else None
    lambdas = [f for f in u.roots if "(lambda" in f.q and f.q.endswith("operator()")]
    sites = []
    for f in u.roots:
        if f.is_decl: continue
        R.saw("functions analysed")
        v = Values(f); f._vals = v
        loops = f.loops()
        for i in f.all_instrs():
            k = kind(i)
            if k is None or k.lower().startswith("notify") or f.q not in direct: continue      # (in functions that only call one that waits, it is that one's)
            R.saw("waits")
            n = len(i.ops) - (1 if i.ops and callee_q(callee_of(i)).endswith("~") else 0)
            pred = (n >= 3 if k == "wait" else n >= 4)
            looped = any(i.blk in (l[1] if isinstance(l, tuple) else loops[l]) for l in loops) if loops else False
            R.ob("rechecks", f.q, pred or looped, f.loc(i), "it waits without a condition: it may go on although nothing has happened, or sleep through what has")
            p = place(f, v, i.ops[0]); cv = mem_at(p[1]) if p and p[0] == "this" else None
            reads = set(); lits = []
            ls = [g for g in lambdas if g.q.startswith(f.q + "(")]
            if pred and not ls: raise Broken("the condition %s waits for was not found" % f.q)
            for g in ls:
                r, l = condition(P, g, mem_at); reads |= r; lits += l
            if not pred:
                for j in f.all_instrs():
                    if j.op == "load":
                        q = place(f, v, j.ops[0])
                        if q and q[0] == "this" and q[1] is not None and mem_at(q[1]) and any(j.blk in (l[1] if isinstance(l, tuple) else loops[l]) for l in loops): reads.add(mem_at(q[1]))
            R.ob("rechecks", f.q, bool(reads), f.loc(i), "the condition it waits for depends on nothing that changes")
            sites.append((f, i, cv, own_lock(f, i), reads, lits))
    readers = {}
    for f, i, cv, lk, reads, lits in sites:
        for m in reads: readers.setdefault(m, set()).add(f.q)
    seen = set()
    waiters_own = {}            # a member that one waiter alone reads: what that waiter writes itself
    for m, qs in readers.items():
        if len(qs) == 1:
            for g in u.roots:
                if g.q in qs: waiters_own[m] = {g.loc(w) for w in g.all_instrs() if w.op == "store"}
    for f, i, cv, lk, reads, lits in sites:
        for m in sorted(reads):
            for g in u.roots:
                if g.is_decl or "(lambda" in g.q: continue
                d = g.q.split("::")[-1]
                if d == c.split("::")[-1]: continue                       # the constructor: nobody waits yet
                if d in FORK: continue
                if readers[m] == {g.q}: continue                         # the waiter's own
                v = Values(g); g._vals = v; at, _ = held(g, must=True)
                for w in g.all_instrs():
                    o = None
                    if w.op == "store": o = w.ops[1]
                    elif w.op in ("atomicrmw", "cmpxchg"): o = w.ops[0]
                    elif w.op in ("call", "invoke") and callee_q(callee_of(w)).split("::")[-1] in GROWS and w.ops: o = w.ops[0]
                    if o is None or w.id not in at: continue
                    p = place(g, v, o)
                    if p is None or p[0] != "this" or p[1] is None or mem_at(p[1]) != m: continue
                    if g.loc(w) in waiters_own.get(m, ()): continue
                    what = "%s::%s written in %s" % (c, m, g.q.split("::")[-1]); seen.add(m)
                    R.ob("under-lock", what, lk in at[w.id], g.loc(w), "it is changed without holding %s, under which %s checks it: the change may fall between its check and its sleep" % (lk.split("::")[-1], f.q))
                    R.ob("notified", what, woken(g, v, w, cv, mem_at, lits, at), g.loc(w), "no notification of %s follows on some path: %s may sleep on" % (cv, f.q))
    # what is waited for can change at all
    for f, i, cv, lk, reads, lits in sites:
        R.ob("notified", f.q, bool(reads & seen), f.loc(i), "nothing ever changes what it waits for")

def desc(f, v, o, mem_at, strip):
    """what a value is, in terms of members: loads, calls on members, constants"""
    i = f.val(o)
    while i is not None and i.op in ("zext", "sext", "freeze"): o = i.ops[0]; i = f.val(o)
    if i is None: return ("c", o) if not (isinstance(o, str) and o.startswith("%")) else ("a", o)
    def rel(x):
        p = place(f, v, x)
        if p is None or p[0] != "this": return None
        p = p[1:]
        if strip is not None:
            if len(p) < 2 or p[0] != strip: return ("closure",) + p
            p = p[1:]
        return p
    if i.op == "load":
        p = rel(i.ops[0]); return ("l", p) if p else ("?", f.name, i.id)
    if i.op in ("call", "invoke") and i.ops:
        p = rel(i.ops[0]); return ("f", callee_of(i), p) if p else ("?", f.name, i.id)
    return ("?", f.name, i.id)

NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "uge": "ule", "ule": "uge", "slt": "sgt", "sgt": "slt", "sge": "sle", "sle": "sge"}
def canon(pred, a, b):
    return (pred, a, b) if str(a) <= str(b) else (SWAP[pred], b, a)

def literal(f, v, o, mem_at, strip, truth=True):
    i = f.val(o)
    if i is not None and i.op == "xor" and 1 in i.ops: return literal(f, v, i.ops[0], mem_at, strip, not truth)
    if i is None or i.op != "icmp" or i.d["pred"] not in NEG: return None
    p = i.d["pred"] if truth else NEG[i.d["pred"]]
    return canon(p, desc(f, v, i.ops[0], mem_at, strip), desc(f, v, i.ops[1], mem_at, strip))

def condition(P, g, mem_at):
    """(members read, comparisons that make it true)"""
    v = Values(g); strip = None
    r = P.record(g.q[:-len("::operator()")])
    if r is not None:
        for e in r["els"]:
            if e["k"] == "DW_TAG_member" and e["n"] in ("this", "__this"): strip = e["off"]
    if strip is None: return set(), []
    reads = set()
    for i in g.all_instrs():
        os = [i.ops[0]] if i.op == "load" else list(i.ops) if i.op in ("call", "invoke") else []
        for o in os:
            p = place(g, v, o)
            if p and p[0] == "this" and len(p) >= 3 and p[1] == strip and p[2] is not None:
                m = mem_at(p[2])
                if m: reads.add(m)
    lits = []
    def good(o, b=None):
        l = literal(g, v, o, mem_at, strip)
        if l: lits.append(l)
    for i in g.all_instrs():
        if i.op == "ret" and i.ops: good(i.ops[0])
        if i.op == "phi": 
            for b, o in i.d["inc"]: good(o)
        if i.op == "select" and i.ops[1] in (1, "true"): good(i.ops[0]); good(i.ops[2])
        if i.op == "br" and i.ops:
            # a branch to where the answer is true
            for k, s in enumerate(g.succ[i.blk]):
                for p in g.blocks[s]:
                    if p.op != "phi": break
                    for b, o in p.d["inc"]:
                        if b == i.blk and o in (1, "true", -1):
                            l = literal(g, v, i.ops[0], mem_at, strip, k == 0)
                            if l: lits.append(l)
    return reads, lits

def woken(g, v, w, cv, mem_at, lits, at):
    """every path from the write to the function's end wakes the waiters, or finds that the condition does not hold"""
    def notifies(i):
        k = kind(i)
        if k not in ("notify_all", "NotifyAll"): return False
        p = place(g, v, i.ops[0])
        return p is not None and p[0] == "this" and p[1] is not None and mem_at(p[1]) == cv
    seen = set(); start = g.blocks[w.blk]
    work = [(w.blk, [i for i in start if i.idx > w.idx])]
    while work:
        b, rest = work.pop()
        if any(notifies(i) for i in rest): continue
        t = rest[-1] if rest else start[-1]
        if t.op in ("ret", "resume"): return False
        for k, s in enumerate(g.succ[b]):
            if t.op == "br" and t.ops and len(g.succ[b]) == 2:
                l = literal(g, v, t.ops[0], mem_at, None, k == 0)
                if l and (NEG[l[0]],) + l[1:] in lits: continue
            if t.op == "invoke" and k == 1: continue            # the change did not happen, or an exception comes between (C14)
            if s not in seen: seen.add(s); work.append((s, g.blocks[s]))
    return True

# -- the wrapper ----------------------------------------------------------------------
def wrapper(R, P):
    c = N + "StandardConditionVariableWrapper"
    u = ir.view("waitwrap", [c + "::(WaitFor|WaitUntil|NotifyAll)"], BARRIERS)
    by = {f.q.split("::")[-1]: f for f in u.roots}
    for n, w in (("WaitFor", "wait_for"), ("WaitUntil", "wait_until"), ("NotifyAll", "notify_all")):
        if n not in by: raise Broken("%s::%s not found" % (c, n))
        f = by[n]; v = Values(f); cs = [i for i in f.all_instrs() if kind(i)]
        ok = len(cs) >= 1 and all(kind(i) == w and v.op(i.ops[0]).get("arg0") == 1 for i in cs)
        if ok and w != "notify_all":
            for i in cs:
                ok = ok and len(i.ops) >= 4 and key(v.op(i.ops[1])) == key(atom("arg1")) and key(v.op(i.ops[2])) == key(atom("arg2"))
        # on every path
        def hook(st, i):
            if i in cs: st.set("done", True)
            if i.op == "ret" and st.checking: R.ob("passed-on", f.q, bool(st.get("done")), f.loc(i), "on some path it does not reach the condition variable")
        AbsInt(f, hook=hook).run()
        R.ob("passed-on", f.q, ok, "", "it does not do what it is asked to with its condition variable (%s)" % w)

# -- threads ---------------------------------------------------------------------------
def threads(R, P):
    """in every destructor that joins a thread, a flag that the class also reads elsewhere is set first, on every path"""
    n = 0
    for f0 in P.repo_fns():
        if not any(strip_templates((prog_fn(c).q if c and prog_fn(c) else c) or "") == "std::thread::join" for i, c in calls_of(f0)): continue
        n += 1; c = f0.q.rsplit("::", 1)[0]; mem = members(c)
        own = sorted({f.q for f in P.repo_fns() if f.q.startswith(c + "::")})
        u = ir.view("join-" + c.split("::")[-1], [rx(q) for q in own], [rx(q) for q in sorted({f.q for f in P.repo_fns() if f.q.startswith(N) and f.q not in own})] + BARRIERS)
        def at(f, v, o):
            p = place(f, v, o)
            if p is None or p[0] != "this" or p[1] is None or len(p) != 2: return None
            x = [m for m in mem if m["off"] <= p[1] < m["off"] + max(m["sz"], 1)]
            return x[0]["n"] if x else None
        reads = set()
        for f in u.roots:
            if f.q == f0.q or f.is_decl: continue
            v = Values(f)
            for i in f.all_instrs():
                if i.op == "load" and at(f, v, i.ops[0]): reads.add(at(f, v, i.ops[0]))
        # conditions are evaluated in closures
        for f in u.roots:
            if "(lambda" in f.q and not f.is_decl:
                for m in condition(P, f, lambda off: next((m["n"] for m in mem if m["off"] <= off < m["off"] + max(m["sz"], 1)), None))[0]: reads.add(m)
        for f in u.roots:
            if f.q != f0.q or f.is_decl: continue
            v = Values(f)
            def hook(st, i):
                if i.op == "store" and at(f, v, i.ops[1]) in reads and v.op(i.ops[0]) == const(1): st.set("told", True)
                if i.op == "atomicrmw" and at(f, v, i.ops[0]) in reads and i.d.get("rmw") in ("xchg", "or") and v.op(i.ops[1]) == const(1): st.set("told", True)
                if i.op in ("call", "invoke") and callee_q(callee_of(i)) == "std::thread::join" and st.checking:
                    R.ob("told-first", f.q, bool(st.get("told")), f.loc(i), "the thread is joined although it may not have been told to stop: joining it may never return")
            AbsInt(f, hook=hook).run()
            if not any(i.op in ("call", "invoke") and callee_q(callee_of(i)) == "std::thread::join" for i in f.all_instrs()): continue
    if n < 2: raise Broken("functions joining threads not found")

def requests(R, P):
    c = N + "StreamRecorderImpl"; s = N + "StreamRecorder"
    own = {c + "::Poll"}
    u = ir.view("looprequests", [c + "::Poll", s + "::Poll", s + "::ConsumePendingFlushCount"], [rx(q) for q in sorted({g.q for g in P.repo_fns() if g.q.startswith(N)} - {s + "::ConsumePendingFlushCount"})] + BARRIERS)
    by = {f.q: f for f in u.roots}
    for q in (c + "::Poll", s + "::Poll"):
        if q not in by: raise Broken("%s not found" % q)
    # the recorder's loop: leave when told, flush when asked, and let the recorder look
    f = by[c + "::Poll"]; v = Values(f)
    mem = members(c); ex = [m for m in mem if m["n"].startswith("exit")]
    if not ex: raise Broken("StreamRecorderImpl's exit flag not found")
    ex = ex[0]["off"]; smem = members(s)
    so = [m for m in mem if m["n"] == "stream_recorder_"][0]["off"]
    pend = [m for m in smem if "pending_flush" in m["n"]]
    def smember(o, off):
        p = place(f, v, o)
        return p is not None and p == ("this", so, off)
    def called(i): return callee_q(callee_of(i)) if i.op in ("call", "invoke") else ""
    def hook(st, i):
        if i.op == "load" and place(f, v, i.ops[0]) == ("this", ex): st.set("exit", i.id)
        if i.op == "atomicrmw" and pend and smember(i.ops[0], pend[0]["off"]):
            st.set("count", i.id)
            if st.checking: R.ob("requested", "pending flushes", i.d.get("rmw") == "xchg" and cval(v.op(i.ops[1])) == 0, f.loc(i), "requests are not taken over in one step: one made meanwhile is lost")
        if i.op == "store" and pend and smember(i.ops[1], pend[0]["off"]) and st.checking: R.ob("requested", "pending flushes", False, f.loc(i), "requests made meanwhile are overwritten")
        if called(i) == c + "::Flush": st.set("flushed", True)
        if called(i) == N + "EventBase::LoopBreak": st.set("left", True)
        if called(i) == s + "::Poll": st.set("polled", True)
        if i.op == "ret" and st.checking:
            e, n = st.get("exit"), st.get("count")
            told = e is not None and not st.eq(v.lin(e)); nottold = e is not None and not st.ne(v.lin(e))
            if not nottold or e is None: R.ob("stops", c + "::Poll", bool(st.get("left")) and e is not None, f.loc(i), "it is told to stop, but does not leave the event loop" if e is not None else "whether it is to stop is not looked at")
            elif told: R.ob("stops", c + "::Poll", bool(st.get("left")), f.loc(i), "it may be told to stop, but does not leave the event loop")
            else:
                R.ob("requested", "pending flushes", n is not None and (bool(st.get("flushed")) or st.ge(scale(v.lin(n), -1)) or st.eq(v.lin(n))), f.loc(i), "a flush was asked for, but nothing is flushed")
                R.ob("requested", c + "::Poll", bool(st.get("polled")), f.loc(i), "those who wait for a flush or shutdown are not looked after")
    AbsInt(f, hook=hook).run()
    # the recorder: a shutdown asked for is started
    f = by[s + "::Poll"]; v = Values(f)
    cnt = [m for m in smem if "shutdown_counter" in m["n"]]
    if not cnt: raise Broken("StreamRecorder's shutdown counter not found")
    def hook2(st, i):
        if i.op == "atomicrmw" and place(f, v, i.ops[0]) == ("this", cnt[0]["off"]):
            st.set("count", i.id)
            if st.checking: R.ob("requested", "shutdowns", i.d.get("rmw") == "xchg" and cval(v.op(i.ops[1])) == 0, f.loc(i), "requests are not taken over in one step: one made meanwhile is lost")
        if called(i) == N + "StreamRecorderImpl::InitiateShutdown": st.set("started", True)
        if i.op == "ret" and st.checking:
            n = st.get("count")
            R.ob("requested", "shutdowns", n is not None and (bool(st.get("started")) or st.ge(scale(v.lin(n), -1)) or st.eq(v.lin(n))), f.loc(i), "a shutdown was asked for, but is not started")
    AbsInt(f, hook=hook2).run()

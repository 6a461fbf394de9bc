"""Nothing that can call back, block or wait for another lock runs while a lock is held, except in one order of locks; locks are given back."""
from lib import *
from checks.locks import *
from checks.effects import *
import ir
RULES = {
    "no-callback": ("no code of the user's (transports, observers, carriers, std::functions, the log sink) runs while a lock of the tracer is held", 20),
    "no-blocking": ("nothing that waits for another thread or for the network is called while a lock that callers of the API take is held", 15),
    "order": ("the relation 'taken while held' between locks has no cycle, and no lock is taken twice", 5),
    "given-back": ("a lock taken is released on every way out", 20),
    "lock-method": ("a lock is taken in scopes the analysis understands", 1),
}
N = "lightstep::"
LK = re.compile(r"^std::(lock_guard|unique_lock|scoped_lock|mutex|recursive_mutex|shared_lock)::|SpinLockMutex::(lock|unlock|try_lock)$|^pthread_mutex_(un)?lock$")
# taken around fork only: the locks of the fork handlers, which stop and restart the background threads by design
FORK = {N + "ForkAwareRecorder::mutex_"}

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    P = ir.program(); G = graph(); D = direct(P)
    P.need("recorder/auto_recorder.cpp", "recorder/manual_recorder.cpp", "recorder/stream_recorder/stream_recorder.cpp", "tracer/span.cpp", "tracer/legacy/legacy_span.cpp", "recorder/fork_aware_recorder.cpp")
    R.assume("a std::function and the methods of the interfaces in include/lightstep and of opentracing's carriers are code of the user's")
    roots = set()
    for f in P.repo_fns():
        if not f.q.startswith(N) or f.q.startswith(N + "SpinLockMutex::"): continue
        for i, c in calls_of(f):
            g = prog_fn(c) if c else None; q = strip_templates(g.q if g else c or "")
            if LK.search(q) and not re.match(r"^std::(mutex|recursive_mutex)::~?(mutex|recursive_mutex)$", q): roots.add(f.q)
    if len(roots) < 15: raise Broken("only %d functions taking locks found" % len(roots))
    u = ir.view("underlock", [rx(q) for q in sorted(roots)], ["lightstep::.*", "opentracing::.*", "std::unique_lock.*", "std::function.*", "std::condition_variable.*", "std::thread.*", "std::basic_.*", "std::__cxx11.*", "google::.*"])
    taken = {}; edges = {}
    info = []
    for f in u.roots:
        if f.is_decl: continue
        R.saw("functions taking locks analysed")
        may, names = held(f)
        info.append((f, may, names))
        taken.setdefault(f.name, set()).update(names)
    mean = {}       # function -> locks it may take, itself or below
    def locks_below(n):
        if n not in mean:
            mean[n] = set()
            for x in G.reach([n]): mean[n] |= taken.get(x, set())
        return mean[n]
    for f, may, names in info:
        cbs = {}; bad_bl = None; leak = None
        for i in f.all_instrs():
            h = may.get(i.id)
            if i.op in ("ret", "resume") and h: leak = leak or (i, h)
            if i.op not in ("call", "invoke") or h is None: continue
            k = op(f, i)
            if k and k[0] == "+":
                for x in h: edges.setdefault((x, k[1]), (f, i))
                continue
            if not h or k: continue
            c = callee_of(i)
            if c and (c.startswith("llvm.") or c.startswith("__c")): continue
            R.saw("calls made while a lock is held")
            if waits(i): h = h - {own_lock(f, i)}
            un = user_call(c) or ("a pointer to a function" if c is None else None)
            starts = [through(P, g).name for g in targets(c) if g is not None] if c else []
            starts = [c] if c and not c.startswith("vcall$") and c in P.fns else starts
            R_ = G.reach(starts)
            for n in starts:
                for x in locks_below(n):
                    for y in h: edges.setdefault((y, x), (f, i))
            if not (h - FORK): continue
            def note(x, m):
                for y in sorted(h - FORK): cbs.setdefault("%s called under %s" % (x, shown({y})), (i, m))
            if un: note(un, "%s is called" % un)
            else:
                for n in sorted(R_):
                    if n in D and D[n][0]: note(D[n][0], "%s leads to %s being called" % (cname(u, i), D[n][0]))
            if c and BLOCK.match(cname(u, i)) and h: bad_bl = bad_bl or (i, cname(u, i))
            elif h:
                b = next((n for n in sorted(R_) if n in D and D[n][1]), None)
                if b and starts: bad_bl = bad_bl or (i, "%s, through %s" % (D[b][1], " -> ".join(G.path(starts[0], lambda n: n in D and D[n][1])[:5])))
        label = f.q
        for k, (i, m) in sorted(cbs.items()): R.ob("no-callback", k, False, f.loc(i), "in %s, %s while %s is held: if it uses what the lock guards, it waits for itself" % (f.q, m, shown(may[i.id])))
        if not cbs: R.ob("no-callback", label, True)
        R.ob("no-blocking", label, bad_bl is None, f.loc(bad_bl[0]) if bad_bl else "", bad_bl and "%s may block while %s is held" % (bad_bl[1], shown(may[bad_bl[0].id])))
        R.ob("given-back", label, leak is None, f.loc(leak[0]) if leak else "", leak and "%s is still held on this way out" % shown(leak[1]))
    # order
    succ = {}
    for (a, b) in edges: succ.setdefault(a, set()).add(b)
    allk = {x for _, _, n in info for x in n}
    for a in sorted(allk):
        R.saw("locks")
        seen = set(); work = list(succ.get(a, ()))
        while work:
            x = work.pop()
            if x not in seen: seen.add(x); work += succ.get(x, ())
        cyc = a in seen
        e = next(((f, i) for (x, y), (f, i) in sorted(edges.items(), key=lambda z: z[0]) if x == a and (y == a or a in reach_of(succ, y))), None) if cyc else None
        R.ob("order", a, not cyc, e[0].loc(e[1]) if e else "", "it is taken while a lock is held that is itself taken under it")
    R.ob("lock-method", "locks are named members or globals", all("?" not in x for x in allk), "", "a lock could not be identified: %s" % sorted(x for x in allk if "?" in x))

def reach_of(succ, a):
    seen = set(); work = [a]
    while work:
        x = work.pop()
        for y in succ.get(x, ()):
            if y not in seen: seen.add(y); work.append(y)
    return seen

def shown(h): return " and ".join(sorted(x.replace(N, "") for x in h))
def rx(q): return re.sub(r"[^A-Za-z0-9_:]", ".", q)

def lock_name(f, p):
    if p is None: return "?" + f.q
    if p[0] == "this":
        c = "::".join(f.q.split("::")[:-1]); r = ir.program().record(c)
        while r is None and "::" in c: c = "::".join(c.split("::")[:-1]); r = ir.program().record(c)
        if r is not None and len(p) == 2:
            e = [m for m in members(c) if m["off"] <= p[1] < m["off"] + max(m["sz"], 1)]
            if e: return "%s::%s" % (c, e[0]["n"])
        return "%s%s" % (c, list(p[1:]))
    if p[0].startswith("@"):
        g = ir.program().globals.get(p[0][1:])
        return (g or {}).get("demangled") or p[0][1:]
    return "?" + f.q

def op(f, i):
    """(+/-, name of the lock) of an instruction that takes or releases one"""
    v = f.__dict__.setdefault("_vals", None) or Values(f); f._vals = v
    k = lock_op(f, v, i)
    if k: return k[0], lock_name(f, k[1])
    if i.op not in ("call", "invoke"): return None
    c = callee_of(i) or ""; g = prog_fn(c); q = strip_templates(g.q if g else c)
    m = re.match(r"^std::unique_lock::(~?\w+)$", q)
    if not m: return None
    n = m.group(1)
    if n == "unique_lock" and len(i.ops) >= 2: return ("+", lock_name(f, place(f, v, i.ops[1]))) if len(i.ops) == 2 else None
    own = own_lock(f, i)
    if n in ("~unique_lock", "unlock"): return "-", own
    if n in ("lock", "try_lock"): return "+", own
    return None

def own_lock(f, i):
    """the mutex of the std::unique_lock an operand refers to"""
    for o in i.ops:
        for j in f.all_instrs():
            if j.op in ("call", "invoke") and j is not i and len(j.ops) >= 2 and j.ops[0] == o:
                g = prog_fn(callee_of(j) or ""); q = strip_templates(g.q if g else "")
                if q == "std::unique_lock::unique_lock": return lock_name(f, place(f, f._vals, j.ops[1]))
    return "?" + f.q

def waits(i):
    c = callee_of(i) or ""
    n = vcall_name(c) if c.startswith("vcall$") else (prog_fn(c).q if prog_fn(c) else c)
    return bool(re.search(r"condition_variable(_any)?::wait|ConditionVariableWrapper::Wait(For|Until)$", n))

def held(f, must=False):
    """({instruction: locks that may be (must: are certainly) held before it}, all locks taken)"""
    IN = {0: frozenset()}; work = [0]; at = {}; names = set()
    def step(h, i):
        k = op(f, i)
        if k:
            if k[0] == "+": names.add(k[1]); return h | {k[1]}
            return h - {k[1]}
        if i.op in ("call", "invoke") and "__throw_system_error" in (callee_of(i) or ""): return frozenset()     # the lock could not be taken
        return h
    while work:
        b = work.pop(); h = IN[b]
        for i in f.blocks[b]:
            at[i.id] = h if must else h | at.get(i.id, frozenset()); was = h; h = step(h, i)
        for k, s in enumerate(f.succ[b]):
            o = was if i.op == "invoke" and k == 1 and op(f, i) and op(f, i)[0] == "+" else h      # taking it failed
            n = o & IN.get(s, o) if must else o | IN.get(s, frozenset())
            if s not in IN or n != IN[s]: IN[s] = n; work.append(s)
    return at, names

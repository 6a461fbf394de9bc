"""The spin lock excludes and publishes; every member that is written after construction is always touched under one lock."""
from lib import *
from contract import *
from checks.locks import *
from checks.handles import only_from
import ir
RULES = {
    "spin-acquire": ("lock() returns only after an acquiring read-modify-write found the lock free and took it", 1),
    "spin-release": ("unlock() frees the lock by a releasing write, the last thing it does", 1),
    "spin-start": ("a new spin lock is free", 1),
    "guarded": ("all accesses to a member written after construction are made under one and the same lock", 12),
}
N = "lightstep::"
LISTED = ["Span", "LegacySpan", "AutoRecorder", "ManualRecorder", "StreamRecorder", "ForkAwareRecorder"]
# one thread only, or no other thread running
QUIESCED = {N + "StreamRecorder::" + x for x in ("PrepareForFork", "OnForkedParent", "OnForkedChild")}
ASSUME = ["fork handlers run while the recorder's background thread is stopped", "constructors and destructors run while no other thread uses the object",
          "a function handed to a std::thread or registered as an event callback is run by one thread at a time"]

def check(R):
    P = ir.program()
    P.need("recorder/auto_recorder.cpp", "recorder/manual_recorder.cpp", "recorder/stream_recorder/stream_recorder.cpp", "tracer/span.cpp", "tracer/legacy/legacy_span.cpp", "recorder/fork_aware_recorder.cpp")
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    for a in ASSUME: R.assume(a)
    spin(R)
    cls = {r["q"] for r in P.records if r["q"].startswith(N) for e in r["els"] if e["k"] == "DW_TAG_member" and re.search(r"^std::(recursive_|shared_|timed_)?mutex$|SpinLockMutex$", e["t"])}
    for c in LISTED:
        if P.record(N + c) is None: raise Broken("class %s not found" % c)
        cls.add(N + c)
    for c in sorted(cls): guarded(R, P, c)

# -- the spin lock -------------------------------------------------------------------
def spin(R):
    u = ir.view("spin", [N + "SpinLockMutex::.*"], [])
    by = {}
    for f in u.roots: by.setdefault(strip_dn(f), f)
    for n in ("lock", "unlock"):
        if n not in by: raise Broken("SpinLockMutex::%s not found" % n)
    size = max(ir.program().record(N + "SpinLockMutex").get("size") or 1, 1)
    acquire(R, by["lock"], False)
    if "try_lock" in by: acquire(R, by["try_lock"], True)
    release(R, by["unlock"])
    for f in u.roots:
        n = strip_dn(f)
        if n == "SpinLockMutex" and len(f.args) == 1:
            def on_ret(st, i, r):
                R.ob("spin-start", f.q, st.eq(atom(mvar("arg0", 0))), f.loc(i), "a new lock may be taken already")
            Mem(f, on_ret=on_ret).run()
        elif n not in ("lock", "unlock", "try_lock", "SpinLockMutex", "~SpinLockMutex"):
            for i in f.all_instrs():
                if i.op in ("store", "atomicrmw", "cmpxchg"):
                    R.ob("spin-acquire", f.q, False, f.loc(i), "the lock is changed outside lock and unlock")
        R.saw("spin lock methods analysed")

def strip_dn(f): return strip_templates(f.dname or f.q.split("::")[-1])

def mine(v, o):
    e = v.op(o); return e.get("arg0") == 1

def acquire(R, f, tries):
    v = Values(f); q = f.q; rmws = 0
    for i in f.all_instrs():
        if i.op == "store" and mine(v, i.ops[1]):
            R.ob("spin-acquire", q, False, f.loc(i), "the lock is set by a plain write, which tells nobody whether it was free")
        if i.op == "cmpxchg" and mine(v, i.ops[0]):
            rmws += 1
            new = v.op(i.ops[2]); old = v.op(i.ops[1])
            R.ob("spin-acquire", q, has_acquire(i.d["ord"]), f.loc(i), "the exchange that takes the lock has no acquire ordering: what the previous holder wrote may not be seen")
        if i.op == "atomicrmw" and mine(v, i.ops[0]):
            rmws += 1
            R.ob("spin-acquire", q, has_acquire(i.d["ord"]), f.loc(i), "the exchange that takes the lock has no acquire ordering: what the previous holder wrote may not be seen")
    R.ob("spin-acquire", q, rmws > 0, "", "the lock is not taken by an atomic read-modify-write")
    S = set()
    def takes(i):
        """the written value marks the lock as taken"""
        if i.op == "atomicrmw":
            x = v.op(i.ops[1])
            return i.d["rmw"] in ("xchg", "or") and is_const(x) and cval(x) != 0
        x, o = v.op(i.ops[2]), v.op(i.ops[1])
        return is_const(x) and cval(x) != 0
    def hook(st, i):
        if i.op in ("atomicrmw", "cmpxchg") and mine(v, i.ops[0]):
            st.set("last", i.id)
            if st.checking: R.ob("spin-acquire", q, takes(i), f.loc(i), "the write does not mark the lock as taken")
        if i.op == "ret" and st.checking:
            k = st.get("last"); free = False
            if k is not None:
                x = f.ins[k]
                if x.op == "atomicrmw": free = st.eq(v.lin(k))
                else:
                    for y in f.all_instrs():
                        if y.op == "extractvalue" and y.ops[0] == "%%%d" % k:
                            o = v.op(x.ops[1])
                            if y.d["idx"] == [1] and st.eq(sub(v.lin(y.id), const(1))) and is_const(o) and cval(o) == 0: free = True
                            if y.d["idx"] == [0] and st.eq(v.lin(y.id)) and is_const(o) and cval(o) == 0: free = True
            if tries and i.ops:
                r = v.op(i.ops[0])
                if st.eq(r): return                   # not taken, and says so
                if not free and k is not None:
                    e = v.lin(k)
                    # the answer is "it was free"
                    free = any(y.op == "icmp" and y.d.get("pred") == "eq" and y.ops[0] == "%%%d" % k and y.ops[1] == 0 and key(v.lin(y.id)) == key(r) for y in f.all_instrs()) or \
                           any(y.op == "extractvalue" and y.ops[0] == "%%%d" % k and y.d["idx"] == [1] and key(v.lin(y.id)) == key(r) for y in f.all_instrs()) or \
                           st.eq(sub(add(r, e), const(1)))
            R.ob("spin-acquire", q, free, f.loc(i), "it returns although another thread may hold the lock")
    AbsInt(f, hook=hook).run()

def release(R, f):
    v = Values(f); q = f.q
    ws = [i for i in f.all_instrs() if i.op in ("store", "atomicrmw", "cmpxchg") and mine(v, i.ops[1] if i.op == "store" else i.ops[0])]
    R.ob("spin-release", q, bool(ws), "", "unlock does not free the lock")
    def frees(i):
        x = v.op(i.ops[0] if i.op == "store" else i.ops[-1])
        return (i.op == "store" or i.d.get("rmw") in ("xchg", "and")) and is_const(x) and cval(x) == 0
    for i in ws:
        R.ob("spin-release", q, frees(i), f.loc(i), "the write does not mark the lock as free")
        R.ob("spin-release", q, has_release(i.d.get("ord", "")), f.loc(i), "the lock is freed without release ordering: the next holder may not see what was written under it")
    # on every path
    def hook(st, i):
        if i in ws: st.set("freed", True)
        if i.op == "ret" and st.checking: R.ob("spin-release", q, bool(st.get("freed")), f.loc(i), "the lock may stay taken")
    AbsInt(f, hook=hook).run()

# -- members under a lock ----------------------------------------------------------------
def addr_taken(P):
    if not hasattr(P, "_taken"):
        P._taken = set()
        def walk(o):
            if isinstance(o, str) and o.startswith("@"): P._taken.add(o[1:])
            elif isinstance(o, dict):
                for x in o.values(): walk(x)
            elif isinstance(o, list):
                for x in o: walk(x)
        for f in P.fns.values():
            if f.is_decl: continue
            for i in f.all_instrs():
                for o in i.ops: walk(o)
                if i.op == "phi":
                    for _, o in i.d["inc"]: walk(o)
        for g in P.globals.values():
            if "init" in g: walk(g["init"])
    return P._taken

def guarded(R, P, c):
    mem = members(c); rec = P.record(c)
    statics = [e for e in rec["els"] if e.get("static") and e["k"] != "method"]
    glob = {}
    for e in statics:
        for n, g in P.globals.items():
            if (g.get("demangled") or "") == c + "::" + e["n"]: glob[n] = e
    scopes = set()
    for f in P.repo_fns():
        if f.q.startswith(N) and f.q != c and not f.q.startswith(c + "::"): scopes.add(f.q)
    own = [f for f in P.repo_fns() if f.q.startswith(c + "::")]
    taken = addr_taken(P); inside = only_from([re.escape(c) + "::.*"])
    def helper(f):
        """only ever called directly, by the class's own functions: judged as part of those"""
        up = P._upcalls.get(f.name, set())
        return f.name not in taken and bool(up) and inside_all(up) and access(f) != "public"
    def inside_all(up): return all(P.fns[x].q.startswith(c + "::") for x in up if x in P.fns)
    inside("x")
    names = sorted({f.q for f in own})
    u = ir.view("guard-" + c.split("::")[-1], [rx(q) for q in names], [rx(q) for q in sorted(scopes)])
    roots = []
    for f in u.roots:
        g = P.fns.get(f.name) or prog_fn(f.name)
        if g is not None and helper(g): continue
        if re.search(r"\(lambda", f.q): 
            # part of whatever makes it, unless it is handed to another thread
            continue
        roots.append(f)
    acc = []
    for f in roots:
        R.saw("methods analysed")
        acc += [a for a in accesses(f, mem, glob={n: e for n, e in glob.items()}) ]
    byf = {}
    for a in acc:
        m = a.member if isinstance(a.member, dict) else glob[a.member]
        if SYNC.search(m["t"]) or safe(P, m["t"]): continue
        byf.setdefault(m["n"], []).append(a)
    R.saw("member accesses analysed", len(acc))
    for n, A in sorted(byf.items()):
        live = [a for a in A if (not is_special(a.f) or not isinstance(a.member, dict)) and a.f.q not in QUIESCED]
        if not any(a.write for a in live): continue
        # a thread's own data: one function, not callable from elsewhere, touches it
        fs = {a.f.q for a in live}
        if len(fs) == 1 and private(P, live[0].f): 
            R.ob("guarded", "%s::%s" % (c, n), True); continue
        writers = {a.f.q for a in live if a.write}
        need = [a for a in live if a.write or a.f.q not in writers or len(writers) > 1]
        made = {a.path for a in A if a.write and is_special(a.f)}
        first = [a for a in live if a.write and a.path in made and if_null(a)]      # creates what the constructor has created already
        need = [a for a in need if a.write or any(touches(w, a) for w in live if w.write and w not in first)]
        common = None
        for a in need: common = a.locks if common is None else common & a.locks
        ok = bool(common)
        bad = min(need, key=lambda a: len(a.locks))
        R.ob("guarded", "%s::%s" % (c, n), ok, bad.f.loc(bad.i), "%s %s %s, which other threads use, %s" % (bad.f.q, "changes" if bad.write else "reads", n, "without holding a lock" if not bad.locks else "under a different lock than they do"))

def if_null(a):
    """the write only happens where the member was found to be null"""
    f = a.f; v = Values(f)
    for b in f.blocks:
        t = f.blocks[b][-1] if isinstance(f.blocks, dict) else b[-1]
        if t.op != "br" or not t.ops: continue
        c = f.val(t.ops[0])
        if c is None or c.op != "icmp" or c.ops[1] not in ("null", 0) or c.d.get("pred") not in ("eq", "ne"): continue
        l = f.val(c.ops[0])
        if l is None or l.op != "load" or place(f, v, l.ops[0]) != ("this",) + a.path: continue
        s = f.succ[t.blk][0 if c.d["pred"] == "eq" else 1]
        if f.edge_dominates(t.blk, s, a.i.blk): return True
    return False

def touches(w, a):
    """may the write change what the access reads"""
    return w.path == a.path or not isinstance(w.member, dict) or (w.call and w.path == (w.member["off"],)) or (a.call and a.path == (a.member["off"],)) or len(w.path) > 1 or None in w.path

def safe(P, t):
    """a class whose own members may be used by several threads at once"""
    if re.match(r"^lightstep::CircularBuffer\b", t): return True          # decided by C01 to C04
    r = P.record(t)
    if r is None or not t.startswith(N): return False
    m = [e for e in r["els"] if e["k"] == "DW_TAG_member" and not e.get("static")]
    return bool(m) and all(SYNC.search(e["t"]) or e["t"].startswith("&") for e in m)

def rx(q): return re.sub(r"[^A-Za-z0-9_:]", ".", q)

def private(P, f):
    g = P.fns.get(f.name) or prog_fn(f.name)
    return g is not None and access(g) != "public"

"""Decides that the generator handed out is thread-local, that on every path to its first use it has been seeded over its whole
state with at least as many bits drawn from std::random_device, that a handler reseeding it in a forked child has been
registered by then, that identifiers are fresh outputs of that generator, and (exactly, by linear algebra over GF(2))
that its step never maps two states to one and runs through all states before repeating."""
from lib import *
from contract import *
import ir
from checks import gf2
RULES = {
    "seeded": ("the generator is the calling thread's own and has been seeded from the system's entropy before it is handed out", 1),
    "fork": ("a forked child's handler reseeds the generator", 1),
    "fresh": ("every identifier is a fresh output of the calling thread's generator", 2),
    "step": ("the generator's step loses no state, has the maximal period, and its output depends on all of the state", 3),
    "duration": ("a random duration is drawn between the two bounds in the same unit", 1),
}
L = "lightstep::"
G = L + "GetRandomNumberGenerator"
STEP = L + "FastRandomNumberGenerator::operator()"
def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    P = ir.program(); P.need("common/random", "fork_unix")
    rec = P.record(L + "FastRandomNumberGenerator")
    if rec is None: raise Broken("FastRandomNumberGenerator not found")
    size = rec["size"]
    if members(L + "FastRandomNumberGenerator")[0]["off"] != 0: raise Broken("the generator's state is not at its start")
    u = ir.view("rng", [G])
    gs = set(); handlers = []
    seeding(R, u, one(u, G), size, "get", gs, handlers)
    if not handlers: R.ob("fork", G, False, "", "no handler for the child is registered")
    for h in sorted(set(handlers)):
        f = P.fns.get(h) or next((x for n, x in P.fns.items() if n.split("$")[0] == h.split("$")[0]), None)
        if f is None or f.is_decl: R.ob("fork", h, False, "", "the child's handler is not known"); continue
        w = ir.view("rng_handler", [re.escape(f.q)])
        hf = [x for x in w.roots if x.name.split("$")[0] == h.split("$")[0]] or w.roots
        if not hf: raise Broken("no view of " + f.q)
        seeding(R, w, hf[0], size, "fork", gs, [])
    ids(R)
    step(R, size)
    R.assume("std::random_device yields the system's entropy; std::seed_seq::generate fills the whole range it is given")

def seeding(R, u, f, size, what, gs, handlers):
    rule = "seeded" if what == "get" else "fork"
    tls = {g for g, x in u.globals.items() if x.get("tls")}
    nm = f.q if what == "fork" else G
    def ob(i, ok, m): R.ob(rule, nm, ok, f.loc(i), m)
    def base(g): return "@" + g
    def glob(st, e):
        r = st.poly.reduce(e)
        a = [x for x in r if x != ONE]
        return (a[0], int(cval(r))) if len(a) == 1 and r[a[0]] == 1 and isinstance(a[0], str) and a[0].startswith("@") else (None, None)
    def init(st):
        st.set("fresh", ()); st.set("seeded", ()); st.set("reg", 0); st.set("guards", ()); st.set("set", ())
    def objname(st, e):
        g, k = glob(st, e)
        if g is not None: return g, k
        l = m.loc(st, e)
        return (l[1], l[2]) if l is not None else (None, None)
    def on_call(st, i, c):
        q = cname(u, i)
        if c.startswith("llvm.threadlocal"):
            st.poly.add_eq(sub(st.ai.v.lin(i.id), st.lin(i.ops[0])), prefer=i.id); return True
        if c.startswith("llvm.mem"):
            s, k1 = objname(st, st.lin(i.ops[1])); d, k2 = objname(st, st.lin(i.ops[0])); n = st.lin(i.ops[2])
            if s in st.get("seeded") and k1 == 0 and k2 == 0 and is_const(n) and cval(n) >= size: st.set("seeded", tuple(sorted(set(st.get("seeded")) | {d}, key=str)))
            return None
        if q == "std::random_device::operator()":
            st.set("fresh", tuple(sorted(set(st.get("fresh")) | {i.id}))); R.saw("draws of entropy") if st.checking else 0
            return True
        if q == "std::seed_seq::seed_seq":
            o, _ = objname(st, st.lin(i.ops[0]))
            b, k = objname(st, st.lin(i.ops[1])) if len(i.ops) > 2 else (None, None)
            good = False
            if b is not None and k == 0:
                n = scale(atom(("n", b)), 4); cnt = st.poly.reduce(st.lin(i.ops[2]))
                d = st.poly.reduce(sub(st.lin(i.ops[2]), st.lin(i.ops[1])))
                bytes_ = scale(d, 1) if is_const(d) else scale(cnt, 4)
                good = is_const(bytes_) and cval(bytes_) >= size and st.ge(sub(n, bytes_))
            st.set(("seq", str(o)), 1 if good else 2)
            return True
        if q == "std::seed_seq::generate":
            o, _ = objname(st, st.lin(i.ops[0])); b, k = objname(st, st.lin(i.ops[1]))
            n = st.poly.reduce(sub(st.lin(i.ops[2]), st.lin(i.ops[1])))
            full = k == 0 and is_const(n) and cval(n) == size
            if st.checking:
                ob(i, st.get(("seq", str(o))) == 1, "the seed does not come from enough of the system's entropy")
                ob(i, full, "not the whole state of the generator is seeded")
            if full and st.get(("seq", str(o))) == 1: st.set("seeded", tuple(sorted(set(st.get("seeded")) | {b}, key=str)))
            return True
        if c == "__cxa_guard_acquire": st.set("acq", i.id); return True
        if q == "pthread_atfork" or c == "pthread_atfork":
            h = i.ops[2]
            if isinstance(h, str) and h.startswith("@"):
                st.set("reg", 1)
                if st.checking: handlers.append(h[1:])
            elif st.checking: R.ob("fork", nm, False, f.loc(i), "no handler for the child is registered")
            return True
        return True if q.startswith("std::") else None
    def on_store(st, i):
        if i.op != "store": return None
        g, k = glob(st, st.lin(i.ops[1]))
        if g is not None and g[1:] in tls: st.set("set", tuple(sorted(set(st.get("set")) | {g}))); return None
        l = m.ptr(st, i.ops[1]); x = f.val(i.ops[0])
        if x is not None and x.id in st.get("fresh"):
            st.set("fresh", tuple(y for y in st.get("fresh") if y != x.id))
            e = st.lin(i.ops[1])
            for b in allocas:
                d = st.poly.reduce(sub(e, atom(b)))
                if is_const(d) and cval(d) == 0 and ("n", b) not in st.poly.atoms(): st.assign(("n", b), {})
                if ("n", b) in st.poly.atoms() and st.eq(sub(d, scale(atom(("n", b)), 4))): st.assign(("n", b), add(atom(("n", b)), const(1))); break
        return None
    def on_load(st, i):
        g, k = glob(st, st.lin(i.ops[0]))
        if g is not None and g.startswith("@_ZGV") and g[1:] not in tls: st.set("once", i.id)
        if g is not None and g[1:] in tls and k == 0: st.set("guards", tuple(sorted(set(st.get("guards")) | {(g, i.id)})))
        return None
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        if what == "fork":
            ob(i, bool(gs) and gs <= set(st.get("seeded")), "the generator handed out is not reseeded in the child")
            return
        # registered once for the whole process, under a static's guard: a path that finds it done need not do it again
        if st.get("once") and st.ne(atom(st.get("once"))) or st.get("acq") and st.eq(atom(st.get("acq"))): st.set("reg", 1)
        g, k = glob(st, r)
        ob(i, g is not None and g[1:] in tls and k == 0, "the generator handed out is not the calling thread's own")
        gs.add(g)
        done = g in st.get("seeded") and st.get("reg")
        seen = any(st.ne(atom(x)) for gd, x in st.get("guards"))
        ob(i, done or seen and not st.get("set"), "the generator is handed out without having been seeded (and reseeding after a fork arranged) in this thread")
    allocas = [x.id for x in f.all_instrs() if x.op == "alloca"]
    def init2(st):
        init(st)
        for b in allocas: st.assign(("n", b), {})
    m = Mem(f, init=init2, on_call=on_call, on_ret=on_ret, on_store=on_store, on_load=on_load); m.run()
    R.saw("functions analysed")

def ids(R):
    u = ir.view("rng_ids", [L + "GenerateIds?", L + "GenerateRandomDuration"], barriers=[G, re.escape(STEP)], inlines=[r"std::(generate|generate_n|for_each)"])
    f = one(u, L + "GenerateId"); v = Values(f)
    def fresh(f, o):
        i = f.val(o)
        if i is None or i.op not in ("call", "invoke") or cname(u, i) != STEP: return None
        g = f.val(i.ops[0])
        return i if g is not None and g.op in ("call", "invoke") and cname(u, g) == G else None
    for i in final_ret(f): R.ob("fresh", f.q, fresh(f, ret_op(i)) is not None, f.loc(i), "the identifier is not an output of the calling thread's generator")
    for f in some(u, L + "GenerateIds"):
        n = int((re.search(r"ILm(\d+)E", f.name) or [0, 0])[1]); inst_ = "%s<%d>" % (f.q, n)
        if not n: raise Broken("GenerateIds' count is not known")
        def ob(i, ok, msg): R.ob("fresh", inst_, ok, f.loc(i), msg)
        def init(st): st.assign("n", {}); st.set("fresh", ()); st.set("base", None)
        def on_call(st, i, c):
            if cname(u, i) == STEP:
                if st.checking: ob(i, fresh(f, "%%%d" % i.id) is not None, "not the calling thread's generator is used")
                st.set("fresh", tuple(set(st.get("fresh")) | {i.id})); return True
            if cname(u, i) == G: return True
        def on_store(st, i):
            x = f.val(i.ops[0])
            if i.op != "store" or x is None or x.ty != "i64": return None
            e = st.lin(i.ops[1]); b = st.get("base")
            if b is None:
                l = m.loc(st, e)
                if l is not None and l[2] == 0: b = l[1]; st.set("base", b)
            ok = x.id in st.get("fresh")
            if st.checking: ob(i, ok, "an identifier is not a fresh output of the generator")
            st.set("fresh", tuple(y for y in st.get("fresh") if y != x.id))
            if ok and b is not None and st.eq(sub(sub(e, atom(b)), scale(atom("n"), 8))): st.assign("n", add(atom("n"), const(1)))
            return True
        def on_ret(st, i, r):
            if st.checking: R.saw("exits"); ob(i, st.eq(sub(atom("n"), const(n))), "not every identifier is filled in; facts: " + facts(st))
        m = Mem(f, init=init, on_call=on_call, on_store=on_store, on_ret=on_ret); m.run()
        R.saw("functions analysed")
    for f in some(u, L + "GenerateRandomDuration"):
        v = Values(f); k = None
        for i in f.all_instrs():
            if i.op in ("call", "invoke") and cname(u, i).endswith("uniform_int_distribution::uniform_int_distribution"):
                a, b = v.op(i.ops[1]), v.op(i.ops[2])
                k = a.get("arg0")
                R.ob("duration", f.q, k is not None and a == scale(atom("arg0"), k) and b == scale(atom("arg1"), k), f.loc(i), "the bounds are not the two durations")
        if k is None: R.ob("duration", f.q, False, f.loc(None), "nothing is drawn between the bounds"); continue
        for i in final_ret(f):
            x = f.val(ret_op(i)); s = 1
            if x is not None and x.op in ("sdiv", "udiv") and isinstance(x.ops[1], int): s = x.ops[1]; x = f.val(x.ops[0])
            g = f.val(x.ops[1]) if x is not None and x.op in ("call", "invoke") and cname(u, x).endswith("uniform_int_distribution::operator()") else None
            R.ob("duration", f.q, g is not None and cname(u, g) == G and s == k, f.loc(i), "the result is not a draw from the calling thread's generator in the bounds' unit")

def step(R, size):
    u = ir.view("rng_step", [re.escape(STEP), L + "FastRandomNumberGenerator::(min|max)"])
    f = one(u, STEP)
    try: rows, dep = gf2.linear_step(f, size)
    except gf2.NonLinear as e:
        R.ob("step", "invertible", False, f.loc(None), "the step cannot be shown to lose no state: %s" % e)
        return
    R.saw("state bits", len(rows))
    full = gf2.rank(rows) == len(rows)
    R.ob("step", "invertible", full, f.loc(None), "the step maps different states to one: state is lost with every identifier")
    p = gf2.maximal_period(rows) if full else False
    if p is not None: R.ob("step", "period", p, f.loc(None), "the sequence repeats before it has run through all states")
    words = [((1 << 64) - 1) << 64 * k for k in range(size // 8)]
    R.ob("step", "output", all(dep & w for w in words), f.loc(None), "the output does not depend on all of the state")

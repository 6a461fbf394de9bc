"""Ownership accounting: on every path through a function, including the unwinding ones, every handle that was owned at the
start, handed in, or acquired ends up owned by exactly one living object or released exactly once, and no released handle
is used."""
from lib import *
from contract import *
import ir
L = "lightstep::"

class Handle:
    def __init__(self, cls, acquire, release, invalid, pred, out_param=None, adopts=None, never_empty=False):
        self.never_empty = never_empty;
        self.adopts = adopts or (lambda f, k: False)
        self.cls = cls; self.acquire = acquire; self.release = release; self.invalid = invalid; self.pred = pred
        self.out_param = out_param      # the acquiring call stores the handle through this argument; its result is a status
    def off(self): return member(self.cls, self.pred, "handle")

def is_copyish(f):      # parameter kinds of a special member
    return [str(t) for t in (f.pt or [])]

def account(R, rule, label, f, h, live_ret, live_unwind, entry, adopt=(), noreturn_ok=True, extra=None, sret_cls=False):
    """live_ret/live_unwind: cells that are owners after a normal return/after unwinding; entry: cells that own at the start;
    adopt: arguments handed in for keeping."""
    off = h.off(); INV = const(h.invalid)
    ob = lambda i, c, m: R.ob(rule, label, c, f.loc(i), m)
    pool0 = []
    def init(st):
        for k, c in enumerate(entry):
            st.assign("own%d" % k, atom(c)); pool0.append("own%d" % k)
            if h.never_empty: st.poly.add_ne(sub(atom(c), INV))
        for a in adopt: st.assign("in%d" % a, atom(arg(a))); pool0.append("in%d" % a)
        st.set("acq", 0); st.set("rel", 0)
    def on_call(st, i, c):
        n = stem(c)
        if n in h.acquire:
            k = st.get("acq")
            if k < 3:
                if h.out_param is None:
                    st.assign("acq%d" % k, st.ai.v.lin(i.id))
                    if h.invalid == -1: st.poly.add_ge(add(atom("acq%d" % k), const(1)))
                else:
                    st.assign("acs%d" % k, st.ai.v.lin(i.id))
                    l = M.ptr(st, i.ops[h.out_param])
                    if l is not None:
                        M.set(st, l, atom("acq%d" % k))
                        st.poly.add_ne(sub(atom("acq%d" % k), INV))
                st.set("acq", k + 1)
            elif st.checking: ob(i, False, "handles are acquired in a loop")
            return True
        if n in h.release:
            k = st.get("rel")
            if st.checking:
                for j in range(min(k, 3)): ob(i, not may_same(st, st.lin(i.ops[0]), atom("rel%d" % j)), "a handle is released twice; facts: " + facts(st))
                known = [p for p in pool(st) if st.eq(sub(atom(p), st.lin(i.ops[0])))]
                ob(i, bool(known) or st.eq(sub(st.lin(i.ops[0]), INV)), "something is released that is not owned here; facts: " + facts(st))
                if h.invalid == 0: ob(i, bool(known) and st.ne(sub(st.lin(i.ops[0]), INV)), "a handle is released that may be empty")
            if k < 3: st.assign("rel%d" % k, st.lin(i.ops[0])); st.set("rel", k + 1)
            return True
        if extra:
            r = extra(st, i, c, M, ob)
            if r is not None: return r
        if st.checking and not c.startswith("llvm."):
            for o in i.ops:
                e = st.lin(o)
                for j in range(st.get("rel")): ob(i, not (st.eq(sub(e, atom("rel%d" % j))) and not is_const(st.poly.reduce(e))), "a released handle is used")
        if "cxa_allocate_exception" in c or c.startswith("__cxa") or c in ("fcntl", "setsockopt", "connect", "strerror", "__errno_location", "read", "writev"): return True
    def pool(st): return sorted(set(pool0)) + ["acq%d" % k for k in range(st.get("acq"))]
    def may_same(st, a, b): return st.eq(sub(a, b))
    def settle(st, i, live, what):
        INVOK = lambda e: st.eq(sub(e, INV))
        cells = [(c, atom(c)) for c in live]
        P = pool(st)
        if h.out_param is not None:
            def got(k): return st.eq(atom("acs%s" % k[3:]))       # status 0: acquired
            def notgot(k): return st.ne(atom("acs%s" % k[3:]))
        for p in P:
            e = atom(p)
            if p.startswith("acq") and h.out_param is not None:
                if notgot(p): continue
                if not got(p): ob(i, False, "%s without knowing whether the handle was acquired" % what); continue
            elif INVOK(e): continue
            dup = [q for q in P if q != p and not q.startswith("acq") and not p.startswith("acq") and st.eq(sub(e, atom(q)))]
            own = [c for c, x in cells if st.eq(sub(x, e))]
            rel = [j for j in range(st.get("rel")) if st.eq(sub(atom("rel%d" % j), e))]
            t = len(own) + len(rel)
            if t == 0:
                # not acquired on this path?
                ob(i, False, "%s a handle is neither owned by anything nor released; facts: %s" % (what, facts(st)))
            elif len(own) > 1: ob(i, False, "%s a handle has two owners" % what)
            elif own and rel: ob(i, False, "%s a released handle is still owned" % what)
            elif len(rel) > 1: ob(i, False, "%s a handle has been released twice" % what)
            else: ob(i, True, "")
        for c, x in cells:
            ok = INVOK(x) or any(st.eq(sub(x, atom(p))) and (h.out_param is None or not p.startswith("acq") or got(p)) for p in P)
            ob(i, ok, "%s an owner holds something that is not a handle; facts: %s" % (what, facts(st)))
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits"); settle(st, i, live_ret, "on return")
    def on_unwind(st, i):
        if not st.checking: return
        R.saw("unwinding exits"); settle(st, i, live_unwind, "when an exception leaves")
    bases = {c[1] for c in list(live_ret) + list(live_unwind) + list(entry)}
    def keep(st, i, b):
        f2 = prog_fn(callee_of(i) or "")
        return b in bases and not (f2 is not None and not f2.is_decl and (f2.q or "").startswith(L))
    M = Mem(f, init=init, on_call=on_call, on_ret=on_ret, on_unwind=on_unwind, keep=keep, partition=True, edge_hook=c_nothrow(f))
    M.run(); R.saw("functions")

def c_nothrow(f, more=None):
    """C library functions do not throw"""
    def edge(st, b, s, k):
        t = f.blocks[b][-1]
        if t.op == "invoke" and k == 1:
            c = callee_of(t) or ""
            if c and not c.startswith(("_Z", "vcall", "llvm.", "__cxa")): return False
        if more: return more(st, b, s, k)
    return edge

def klass(R, rule, u, h):
    """every method of an owner class that others can call"""
    off = h.off(); cls = h.cls; nm = cls.split("::")[-1]
    seen = {"ctor": 0, "dtor": 0}
    for f in u.roots:
        if f.scope != cls or access(f) == "private": continue
        t = this_arg(f); me = mvar(arg(t), off); n = strip_templates(f.dname or "")
        label = "%s(%s)" % (f.q, ", ".join(param(f, k) for k in range(t + 1, len(f.args))))
        other = [k for k in range(t + 1, len(f.args)) if re.search(r"&.*\b%s$" % re.escape(cls), param(f, k)) and "const" not in param(f, k)]
        oc = [mvar(arg(k), off) for k in other]
        if n == nm:
            adopt = [k for k in range(t + 1, len(f.args)) if h.adopts(f, k)]
            account(R, rule, label, f, h, [me] + oc, oc, oc, adopt); seen["ctor"] += 1
        elif n.startswith("~"): account(R, rule, label, f, h, [], [], [me]); seen["dtor"] += 1
        else: account(R, rule, label, f, h, [me] + oc, [me] + oc, [me] + oc)
    if not seen["ctor"] or not seen["dtor"]: raise Broken("constructors or destructor of %s not found" % cls)

def nocopy(R, rule, cls):
    """a copy would own the handle a second time"""
    P = ir.program(); rec = P.record(cls)
    if rec is None: raise Broken("class %s not found" % cls)
    def copies(rec, seen=()):
        n = rec["q"].split("::")[-1]; ref = "&const " + rec["q"]
        m = [e for e in rec["els"] if e["k"] == "method"]
        cp = {"copy constructor": [e for e in m if e["n"] == n and len(e["pt"]) == 3 and e["pt"][2] == ref],
              "copy assignment": [e for e in m if e["n"] == "operator=" and len(e["pt"]) == 3 and e["pt"][2] == ref]}
        moves = [e for e in m if e["n"] in (n, "operator=") and len(e["pt"]) == 3 and e["pt"][2] == "&&" + rec["q"]]
        out = set()
        for k, es in cp.items():
            if any(not e["del"] and not e["art"] for e in es): out.add(k + " declared")
            elif not es and not moves:
                base = [P.record(e["t"]) for e in rec["els"] if e["k"] == "DW_TAG_inheritance"]
                mem = [P.record(e["t"]) for e in rec["els"] if e["k"] == "DW_TAG_member" and not e.get("static")]
                if not any(b is not None and b["q"] not in seen and k + " missing" in gone(b, seen + (rec["q"],)) for b in base + mem): out.add(k + " implicitly available")
        return out
    def gone(rec, seen):
        c = copies(rec, seen); out = set()
        for k in ("copy constructor", "copy assignment"):
            if not any(x.startswith(k) for x in c): out.add(k + " missing")
        return out
    bad = copies(rec)
    R.ob(rule, cls, not bad, "%s:%s" % (ir.relpath(rec.get("file", "")), rec.get("line", "")), "%s can be copied (%s), although it owns a handle" % (cls, ", ".join(sorted(bad))))

def only_from(inside):
    """a function that answers: is this function one of these, or used (transitively) by these only"""
    P = ir.program()
    if not hasattr(P, "_upcalls"):
        P._upcalls = {}
        for f in P.fns.values():
            if f.is_decl: continue
            for i in f.all_instrs():
                if i.op in ("call", "invoke") and callee_of(i): P._upcalls.setdefault(callee_of(i), set()).add(f.name)
    def ok(n):
        seen = set(); work = [n]
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x); g = P.fns.get(x)
            if g is None or any(re.fullmatch(p, g.q) for p in inside): continue
            up = P._upcalls.get(x, set())
            if not up: return False
            work += list(up)
        return True
    return ok

def outside(R, rule, h, inside):
    """acquiring and releasing happen in the owner only (or in helpers only the owner uses)"""
    P = ir.program(); ok = only_from(inside)
    for f in P.fns.values():
        if f.is_decl or not ((f.file or "").startswith("src/") or "/src/" in (f.file or "")): continue
        for i in f.all_instrs():
            c = callee_of(i) if i.op in ("call", "invoke") else None
            if c in h.acquire or c in h.release:
                R.ob(rule, "%s in %s" % (c, f.q), ok(f.name), f.loc(i), "%s is called outside of the handle's owner" % c)
                R.saw("call sites")

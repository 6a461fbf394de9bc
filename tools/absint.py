"""Forward abstract interpretation of one canonical function: a finite property state (as in ESP-style property
simulation) times the numeric domain of poly.py.  Loop heads are joined and widened, other blocks keep a bounded
number of disjuncts.  Nothing of the analysed program is executed."""
import time
from collections import defaultdict
from poly import F, ONE, const, atom, add, sub, scale, is_const, cval, key, Poly
from ir import callee_of, Broken

LIN_CASTS = {"zext", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"}
INT_BITS = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}
SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "eq": "eq", "ne": "ne"}
NEG = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq"}

class Slow(Exception):
    """the analysis of one function used up its time"""

class Values:
    """linear normal forms and value numbers of a function's SSA values"""
    def __init__(self, fn, const_load=None, pure_call=None):
        self.fn = fn
        self.const_load = const_load or (lambda fn, i, e: False)
        self.pure_call = pure_call or (lambda fn, i: False)
        self._lin = {}
        self._vn = {}
        self.rep = {}
    def op(self, o):
        if isinstance(o, bool): return const(int(o))
        if isinstance(o, int): return const(o)
        if isinstance(o, str):
            if o.startswith("%"): return self.lin(int(o[1:]))
            if o in ("null", "zero"): return {}
            return atom(o)
        if isinstance(o, dict):
            if "base" in o: return self.gep(o)
            if o.get("op") in LIN_CASTS: return self.op(o["ops"][0])
            if o.get("op") == "sub": return sub(self.op(o["ops"][0]), self.op(o["ops"][1]))
        return atom("const:" + str(o))
    def gep(self, g):
        e = add(self.op(g["base"]), const(g["off"]))
        for v, s in g.get("var", []): e = add(e, self.op(v), s)
        return e
    def lin(self, n):
        if n in self._lin: return self._lin[n]
        if n < len(self.fn.args):
            e = atom("arg%d" % n)
            self._lin[n] = e
            return e
        i = self.fn.ins.get(n)
        if i is None: return atom("x%d" % n)
        self._lin[n] = atom(n)      # cut cycles (phis)
        e = self._compute(i)
        self._lin[n] = e
        return e
    def number(self, i, k):
        r = self._vn.setdefault(k, i.id)
        self.rep[i.id] = r
        return atom(r)
    def _compute(self, i):
        op = i.op; o = i.ops
        if op == "getelementptr": return self.gep(i.d)
        if op == "call" and (callee_of(i) or "").startswith("llvm.expect"): return self.op(o[0])
        if op in ("add",): return add(self.op(o[0]), self.op(o[1]))
        if op == "sub": return sub(self.op(o[0]), self.op(o[1]))
        if op in LIN_CASTS: return self.op(o[0])
        if op == "trunc":
            if INT_BITS.get(i.ty, 0) >= 8:
                x = self.unpack(o[0], 0, INT_BITS[i.ty])
                if x is not None: return self.op(x)
            if INT_BITS.get(i.ty, 0) >= 32 or i.ty == "i1": return self.op(o[0])
            return self.number(i, ("trunc", i.ty, key(self.op(o[0]))))
        if op in ("mul", "shl"):
            a, b = self.op(o[0]), self.op(o[1])
            if op == "shl":
                if is_const(b): return scale(a, 2 ** int(cval(b)))
            else:
                if is_const(b): return scale(a, cval(b))
                if is_const(a): return scale(b, cval(a))
                ka, kb = sorted([key(a), key(b)])
                return self.number(i, ("mul", ka, kb))
        if op in ("sdiv", "ashr", "udiv", "lshr"):
            a, b = self.op(o[0]), self.op(o[1])
            if is_const(b):
                d = cval(b) if op in ("sdiv", "udiv") else F(2 ** int(cval(b)))
                x = self.fn.val(o[0])
                if op in ("sdiv", "ashr") and d and x is not None and self._ptrdiff(x): return scale(a, 1 / d)
                if d and op in ("sdiv", "udiv") and all((c / d).denominator == 1 for c in a.values()): return scale(a, 1 / d)
            return self.number(i, (op, key(a), key(b)))
        if op in ("urem", "srem", "and", "or", "xor", "udiv", "sdiv"):
            a, b = self.op(o[0]), self.op(o[1])
            if op == "xor" and is_const(b) and cval(b) in (1, -1) and i.ty == "i1": return sub(const(1), a)
            if op == "srem": op = "urem" if False else "srem"
            ks = [key(a), key(b)]
            if op in ("and", "or", "xor"): ks.sort()
            return self.number(i, (op,) + tuple(ks))
        if op == "icmp":
            return self.number(i, ("icmp", i.d["pred"], key(self.op(o[0])), key(self.op(o[1]))))
        if op == "extractvalue":
            src = self.fn.val(o[0])
            while src is not None and src.op == "insertvalue":
                if src.d["idx"] == i.d["idx"]: return self.op(src.ops[1])
                src = self.fn.val(src.ops[0])
            return self.number(i, ("xv", str(o[0]), tuple(i.d["idx"])))
        if op == "load" and "ord" not in i.d:
            a = self.op(o[0])
            if self.const_load(self.fn, i, a): return self.number(i, ("load", i.ty, key(a)))
        if op == "call" and self.pure_call(self.fn, i):
            return self.number(i, ("call", callee_of(i), tuple(key(self.op(x)) for x in o)))
        if op == "select":
            pass
        return atom(i.id)
    def unpack(self, o, lo, w):
        """the operand whose value are bits [lo, lo+w) of o, where two integers were packed into one"""
        i = self.fn.val(o)
        if i is None: return None
        if i.op == "or":
            for a, b in ((0, 1), (1, 0)):
                if self.zero_bits(i.ops[a], lo, w):
                    return self.unpack(i.ops[b], lo, w)
        elif i.op in ("shl", "lshr") and isinstance(i.ops[1], int):
            k = i.ops[1] if i.op == "lshr" else -i.ops[1]
            if lo + k >= 0: return self.unpack(i.ops[0], lo + k, w)
        elif i.op == "zext":
            x = self.fn.val(i.ops[0])
            n = self.fn.is_arg(i.ops[0])
            bits = INT_BITS.get(x.ty if x is not None else self.fn.args[n][1] if n is not None else "", 0)
            if lo == 0 and bits == w: return i.ops[0]
        return None
    def zero_bits(self, o, lo, w):
        if isinstance(o, int): return (o >> lo) & ((1 << w) - 1) == 0
        i = self.fn.val(o)
        if i is None: return False
        if i.op == "zext":
            x = self.fn.val(i.ops[0]); n = self.fn.is_arg(i.ops[0])
            bits = INT_BITS.get(x.ty if x is not None else self.fn.args[n][1] if n is not None else "", 64)
            return lo >= bits
        if i.op == "shl" and isinstance(i.ops[1], int):
            return lo + w <= i.ops[1] or self.zero_bits(i.ops[0], lo - i.ops[1], w) if lo >= i.ops[1] else lo + w <= i.ops[1]
        if i.op == "and" and isinstance(i.ops[1], int): return ((i.ops[1] % 2**64) >> lo) & ((1 << w) - 1) == 0
        return False
    def _ptrdiff(self, x):
        if x.op == "sub":
            ys = [self.fn.val(y) for y in x.ops]
            return all(y is None or y.op == "ptrtoint" for y in ys)
        return False

class State:
    __slots__ = ("ps", "poly", "ai", "checking", "dead")
    def __init__(self, ps, poly, ai, checking):
        self.ps = ps; self.poly = poly; self.ai = ai; self.checking = checking; self.dead = False
    def get(self, k, d=None): return self.ps.get(k, d)
    def set(self, k, v):
        if self.ps.get(k) != v:
            self.ps = dict(self.ps); self.ps[k] = v
    def lin(self, o): return self.ai.v.op(o)
    # numeric variables (memory cells, ghosts)
    def assign(self, var, e):
        p = self.poly
        if var in e:
            t = ("tmp", var)
            p.add_eq(sub(atom(t), e), prefer=t)
            p.forget([var])
            rename(p, t, var)
        else:
            p.forget([var])
            p.add_eq(sub(atom(var), e), prefer=var)
    def havoc(self, var): self.poly.forget([var])
    def ge(self, e): return self.poly.entails_ge(e)
    def eq(self, e): return self.poly.entails_eq(e)
    def ne(self, e): return self.poly.entails_ne(e)

def rename(p, a, b):
    def rn(e):
        if a not in e: return e
        e = dict(e); e[b] = e.get(b, 0) + e.pop(a)
        return e
    p.eqs = {(b if k == a else k): rn(r) for k, r in p.eqs.items()}
    for d in ("ges", "nes"):
        setattr(p, d, {key({x: c for x, c in rn(e).items() if d == "nes" or x != ONE}): rn(e) for e in getattr(p, d).values()})

class AbsInt:
    K = 48
    def __init__(self, fn, hook=None, init=None, ps0=None, const_load=None, pure_call=None, edge_hook=None, track=None, max_steps=20000, partition=False):
        self.fn = fn; self.hook = hook; self.v = Values(fn, const_load, pure_call)
        self.init = init or (lambda s: None); self.ps0 = ps0 or {}
        self.edge_hook = edge_hook; self.track = track
        self.max_steps = max_steps; self.partition = partition; self.deadline = None
        self._inloop = None
        self.loops = fn.loops()
        self.reports = []
        self.templates = []     # inequalities worth keeping at joins and widenings
        self.visited = set()
    # -- conditions ----------------------------------------------------------
    def assume(self, st, o, truth):
        """conjoin 'value o is truth' to the state"""
        p = st.poly
        if isinstance(o, (int, bool)):
            if bool(o) != truth: p.bot = True
            return
        i = self.fn.val(o)
        if i is not None:
            if i.op == "icmp":
                self._cmp(p, i.d["pred"] if truth else NEG[i.d["pred"]], self.v.op(i.ops[0]), self.v.op(i.ops[1]))
                if i.ops[1] == 0 and i.d["pred"] in ("eq", "ne"):
                    x = self.flag(i.ops[0])
                    if x is not None: self.assume(st, x, truth == (i.d["pred"] == "ne"))
                # boolean atom too
            elif i.op == "xor" and i.ty == "i1" and i.ops[1] in (1, -1, True):
                return self.assume(st, i.ops[0], not truth)
            elif i.op == "and" and i.ty == "i1" and truth:
                self.assume(st, i.ops[0], True); self.assume(st, i.ops[1], True)
            elif i.op == "or" and i.ty == "i1" and not truth:
                self.assume(st, i.ops[0], False); self.assume(st, i.ops[1], False)
            elif i.op == "select" and i.ty == "i1":
                c, a, b = i.ops
                if isinstance(b, (int, bool)) and bool(b) != truth: self.assume(st, c, True); self.assume(st, a, truth)
                elif isinstance(a, (int, bool)) and bool(a) != truth: self.assume(st, c, False); self.assume(st, b, truth)
                elif p.entails_eq(add(self.v.op(c), const(-1))): self.assume(st, a, truth)
                elif p.entails_eq(self.v.op(c)): self.assume(st, b, truth)
            elif i.op == "phi" and i.ty == "i1":
                for _, x in i.d["inc"]:
                    j = self.fn.val(x)
                    if j is not None and j.op != "phi" and p.entails_eq(sub(atom(i.id), self.v.lin(j.id))): self.assume(st, x, truth); break
            elif i.op == "select" and isinstance(i.ops[1], int) and isinstance(i.ops[2], int) and bool(i.ops[1]) != bool(i.ops[2]):
                self.assume(st, i.ops[0], truth == bool(i.ops[1]))
            elif i.op in ("freeze",) or (i.op in ("trunc",) and i.ty == "i1") or i.op in ("zext",):
                return self.assume(st, i.ops[0], truth)
        e = self.v.op(o)
        if truth: p.add_eq(add(e, const(-1)))
        else: p.add_eq(e)
    def cases(self, st, o, truth, d=0):
        """the states in which value o is truth, one per alternative of a disjunction"""
        i = self.fn.val(o) if isinstance(o, str) else None
        if i is not None and d < 6:
            if i.op == "xor" and i.ty == "i1" and i.ops[1] in (1, -1, True): return self.cases(st, i.ops[0], not truth, d + 1)
            if i.op == "freeze" or (i.op == "trunc" and i.ty == "i1") or (i.op == "zext" and self.flag(o) is not None): return self.cases(st, i.ops[0], truth, d + 1)
            if i.op == "select" and isinstance(i.ops[1], int) and isinstance(i.ops[2], int) and bool(i.ops[1] & 1) != bool(i.ops[2] & 1):
                return self.cases(st, i.ops[0], truth == bool(i.ops[1] & 1), d + 1)
            if i.ty == "i1" and i.op in ("or", "and"):
                both = truth == (i.op == "and")
                if both: return [s2 for s in self.cases(st, i.ops[0], truth, d + 1) for s2 in self.cases(s, i.ops[1], truth, d + 1)]
                out = self.cases(st, i.ops[0], truth, d + 1)
                for s in self.cases(st, i.ops[0], not truth, d + 1): out += self.cases(s, i.ops[1], truth, d + 1)
                return out
        s = State(st.ps, st.poly.copy(), self, st.checking)
        self.assume(s, o, truth)
        return [s] if not s.poly.bot and s.poly.feasible() else []
    def flag(self, o):
        """the boolean an integer was widened from"""
        i = self.fn.val(o)
        while i is not None and (i.op in ("zext", "freeze") or (i.op == "call" and (callee_of(i) or "").startswith("llvm.expect"))):
            if i.op == "zext":
                x = self.fn.val(i.ops[0])
                return i.ops[0] if x is not None and x.ty == "i1" else None
            i = self.fn.val(i.ops[0])
        return None
    strict = False      # no conclusions from unsigned comparisons of differences that may be negative
    def _cmp(self, p, pred, a, b):
        d = sub(a, b)
        if pred == "eq": p.add_eq(d)
        elif pred == "ne": p.add_ne(d)
        else:
            if pred[1:] in ("lt", "le"): a, b, pred = b, a, SWAP[pred]
            # a > b or a >= b
            e = sub(a, b)
            if pred.endswith("gt"): e = add(e, const(-1))
            if self.strict and pred[0] == "u" and any(c < 0 for c in a.values()) and not p.entails_ge(a): return
            p.add_ge(e)
            if pred[0] == "u": p.add_ge(b)
    # -- transfer -------------------------------------------------------------
    def instr(self, st, i):
        op = i.op
        if op == "phi": return
        aid = i.id
        if op in ("urem",):
            b = self.v.op(i.ops[1])
            e = self.v.lin(i.id)
            st.poly.add_ge(e)
            if is_const(b): st.poly.add_ge(add(sub(b, e), const(-1)))
            else: st.poly.add_ge(add(sub(b, e), const(-1)))
        elif op == "zext" and i.ty != "i1":
            x = self.fn.val(i.ops[0])
            if x is not None and x.ty in ("i1", "i8", "i16"):
                e = self.v.lin(i.id)
                st.poly.add_ge(e)
                st.poly.add_ge(sub(const(2 ** INT_BITS[x.ty] - 1), e))
        elif op == "and" and isinstance(i.ops[1], int) and i.ops[1] >= 0:
            e = self.v.lin(i.id)
            st.poly.add_ge(e); st.poly.add_ge(sub(const(i.ops[1]), e))
        elif op == "icmp":
            d = st.poly.reduce(sub(self.v.op(i.ops[0]), self.v.op(i.ops[1])))
            if is_const(d) and i.d["pred"] in ("eq", "ne", "slt", "sgt", "sle", "sge"):
                c = cval(d); r = {"eq": c == 0, "ne": c != 0, "slt": c < 0, "sgt": c > 0, "sle": c <= 0, "sge": c >= 0}[i.d["pred"]]
                st.poly.add_eq(sub(self.v.lin(i.id), const(int(r))))
            elif i.d["pred"] in ("eq", "ne") and st.poly.entails_ne(d):
                st.poly.add_eq(sub(self.v.lin(i.id), const(int(i.d["pred"] == "ne"))))
        elif op in ("and", "or") and i.ty == "i1":
            a, b = st.poly.reduce(self.v.op(i.ops[0])), st.poly.reduce(self.v.op(i.ops[1]))
            z = 0 if op == "and" else 1
            for x, y in ((a, b), (b, a)):
                if is_const(x):
                    if cval(x) == z: st.poly.add_eq(sub(self.v.lin(i.id), const(z)))
                    else: st.poly.add_eq(sub(self.v.lin(i.id), y))
                    break
        elif op == "select":
            c = i.ops[0]
            t, f = self.v.op(i.ops[1]), self.v.op(i.ops[2])
            s1 = State(st.ps, st.poly.copy(), self, False); s2 = State(st.ps, st.poly.copy(), self, False)
            self.assume(s1, c, True); self.assume(s2, c, False)
            s1.poly.add_eq(sub(atom(aid), t), prefer=aid); s2.poly.add_eq(sub(atom(aid), f), prefer=aid)
            st.poly = s1.poly.join(s2.poly)
        elif op == "call" or op == "invoke":
            c = callee_of(i) or ""
            if c.startswith(("llvm.smin", "llvm.umin", "llvm.smax", "llvm.umax")):
                a, b = self.v.op(i.ops[0]), self.v.op(i.ops[1])
                s1 = st.poly.copy(); s2 = st.poly.copy()
                lo = "min" in c.split(".")[1]
                s1.add_ge(sub(b, a) if lo else sub(a, b)); s1.add_eq(sub(atom(aid), a), prefer=aid)
                s2.add_ge(sub(a, b) if lo else sub(b, a)); s2.add_eq(sub(atom(aid), b), prefer=aid)
                st.poly = s1.join(s2)
        if self.track and op in ("load", "store"):
            ptr = i.ops[0] if op == "load" else i.ops[1]
            loc = self.track(self.v.op(ptr), i, st)
            if loc is not None:
                if op == "load":
                    e = self.v.lin(i.id)
                    st.poly.add_eq(sub(e, atom(loc)), prefer=i.id)
                else:
                    st.assign(loc, self.v.op(i.ops[0]))
        if self.hook: self.hook(st, i)
    def edges(self, st, b, s, k):
        """states after taking the k-th successor edge b->s"""
        t = self.fn.blocks[b][-1]
        if t.op == "br" and t.ops:
            cs = self.cases(st, t.ops[0], k == 0)
            if len(cs) > 1:
                if s in self.loops: cs = [st]
            else: cs = [st]
        else: cs = [st]
        return [n for n in (self.edge(c, b, s, k) for c in cs) if n is not None]
    def edge(self, st, b, s, k):
        """state after taking the k-th successor edge b->s, or None"""
        t = self.fn.blocks[b][-1]
        st = State(st.ps, st.poly.copy(), self, False)
        if t.op == "br" and t.ops:
            self.assume(st, t.ops[0], k == 0)
        elif t.op == "switch":
            e = self.v.op(t.ops[0])
            if k == 0:
                for c, _ in t.d["cases"]: st.poly.add_ne(sub(e, const(c)))
            else: st.poly.add_eq(sub(e, const(t.d["cases"][k - 1][0])))
        if st.poly.bot or not st.poly.feasible(): return None
        if self.partition and len(self.fn.succ[b]) > 1 and self.fn.succ[b][0] != self.fn.succ[b][-1]:
            if self._inloop is None: self._inloop = set().union(*self.loops.values()) if self.loops else set()
            if b not in self._inloop: st.set("@", st.get("@", ()) + ((b, k),))
        if self.edge_hook:
            if self.edge_hook(st, b, s, k) is False: return None
            if st.poly.bot: return None
        phis = [i for i in self.fn.blocks[s] if i.op == "phi"]
        vals = []
        for ph in phis:
            inc = [o for pb, o in ph.d["inc"] if pb == b]
            if not inc: raise Broken("phi without incoming value")
            if inc[0] == "undef": vals.append((ph, None)); continue
            vals.append((ph, self.v.op(inc[0])))
        back = s in self.loops and b in self.loops[s]
        p = st.poly
        stale = set()
        if back:
            for lb in self.loops[s]:
                for i in self.fn.blocks[lb]: stale.add(i.id)
        else:
            stale = {ph.id for ph in phis}
        live = p.atoms()
        for ph, e in vals:
            if e is not None: p.add_eq(sub(atom(("t", ph.id)), e), prefer=("t", ph.id))
        drop = set(stale); ch = True
        while ch:       # cells of objects named by a stale value
            ch = False
            for a in p.atoms():
                if isinstance(a, tuple) and a[0] == "m" and a[1] in drop and a not in drop: drop.add(a); ch = True
        p.forget([a for a in p.atoms() if a in drop])
        for ph, e in vals:
            if e is not None: rename(p, ("t", ph.id), ph.id)
        if p.bot or not p.feasible(): return None
        return st
    # -- fixpoint ---------------------------------------------------------------
    def run(self):
        fn = self.fn
        st = State(dict(self.ps0), Poly(), self, False)
        self.init(st)
        IN = defaultdict(dict)      # block -> pskey -> (ps, [polys], visits)
        IN[0][self._k(st.ps)] = [st.ps, [st.poly], 0]
        order = {b: n for n, b in enumerate(fn.wto())}
        work = [(0, self._k(st.ps))]
        steps = 0
        while work:
            work.sort(key=lambda x: order[x[0]])
            b, k = work.pop(0)
            steps += 1
            if self.deadline is not None and time.process_time() > self.deadline: raise Slow(fn.q)
            if steps > self.max_steps: raise Broken("abstract interpretation of %s does not converge" % fn.q)
            ps, polys, _ = IN[b][k]
            for poly in list(polys):
                for out in self.block(b, ps, poly, False):
                    for kk, s in enumerate(fn.succ[b]):
                        for n in self.edges(out, b, s, kk): self.merge(IN, s, n, work)
        self.IN = IN
        # reporting pass over the fixpoint
        for b in order:
            if self.deadline is not None and time.process_time() > self.deadline: raise Slow(fn.q)
            for k, (ps, polys, _) in IN[b].items():
                for poly in polys: self.block(b, ps, poly, True)
        return self
    def _k(self, ps): return tuple(sorted(((str(a), v) for a, v in ps.items()), key=lambda x: x[0]))
    def block(self, b, ps, poly, checking):
        st = State(ps, poly.copy(), self, checking)
        for i in self.fn.blocks[b]:
            if checking: self.visited.add(i.id)
            self.instr(st, i)
            if st.dead or st.poly.bot: return []
        return [st]
    def merge(self, IN, s, n, work):
        k = self._k(n.ps)
        cur = IN[s].get(k)
        if cur is None:
            IN[s][k] = [n.ps, [n.poly], 1]
            work.append((s, k)); return
        if s in self.loops:
            old = cur[1][0]
            if n.poly.leq(old): return
            cur[2] += 1
            new = old.join(n.poly, widen=cur[2] > 4)
            for e in self.templates:
                if old.entails_ge(e) and n.poly.entails_ge(e): new.add_ge(e)
            if 4 < cur[2] <= 24:
                # widening thresholds: what holds in the other property states at the loop heads
                seen = set()
                for h in self.loops:
                    for k2, (_, polys, _) in IN[h].items():
                        if h == s and k2 == k: continue
                        for p in polys[:1]:
                            for kk, e in p.ges.items():
                                if kk in seen or len(e) > 4: continue
                                seen.add(kk)
                                if old.entails_ge(e) and n.poly.entails_ge(e): new.add_ge(e)
            if new.leq(old) and old.leq(new): return
            cur[1] = [new]
        else:
            for p in cur[1]:
                if n.poly.leq(p): return
            keep = [p for p in cur[1] if not p.leq(n.poly)]
            keep.append(n.poly)
            if len(keep) > self.K:
                j = keep[0]
                for p in keep[1:]:
                    j2 = j.join(p)
                    for e in self.templates:
                        if j.entails_ge(e) and p.entails_ge(e): j2.add_ge(e)
                    j = j2
                keep = [j]
            cur[1] = keep
        if (s, k) not in work: work.append((s, k))
    def report(self, i, msg): 
        r = (self.fn.loc(i), msg)
        if r not in self.reports: self.reports.append(r)

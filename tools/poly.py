"""A small numeric abstract domain: affine equalities (Karr 1976, exact join) plus linear inequalities
(Cousot & Halbwachs 1978, weak join) plus disequalities, over named integer quantities.

Expressions are dicts {atom: Fraction}; the constant term has the key 1.
"""
from fractions import Fraction as F
from math import gcd

ONE = "#1"

def const(c): return {ONE: F(c)} if c else {}
def atom(a): return {a: F(1)}
def add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        v = r.get(x, 0) + c * k
        if v: r[x] = v
        else: r.pop(x, None)
    return r
def sub(a, b): return add(a, b, -1)
def scale(a, k): return {x: c * k for x, c in a.items()} if k else {}
def is_const(e): return not e or (len(e) == 1 and ONE in e)
def cval(e): return e.get(ONE, F(0))
def key(e): return tuple(sorted(((str(type(a)), str(a)), c) for a, c in e.items()))
def _ak(a): return (a == ONE, str(a))

def norm_ge(e):
    """integer-tightened, gcd-normalised form of e >= 0"""
    den = 1
    for c in e.values(): den = den * c.denominator // gcd(den, c.denominator)
    e = {a: c * den for a, c in e.items()}
    g = 0
    for a, c in e.items():
        if a is not ONE and a != ONE: g = gcd(g, int(c))
    if g > 1:
        k = e.get(ONE, F(0))
        e = {a: c / g for a, c in e.items() if a != ONE}
        kk = F(int(k) // g)
        if kk: e[ONE] = kk
    return e

class Const1: pass

class Poly:
    MAXI = 36
    def __init__(self):
        self.eqs = {}      # pivot atom -> expr (pivot = expr without pivot)
        self.ges = {}      # key -> expr
        self.nes = {}      # key -> expr
        self.bot = False
    def copy(self):
        p = Poly()
        p.eqs = dict(self.eqs); p.ges = dict(self.ges); p.nes = dict(self.nes); p.bot = self.bot
        return p
    def reduce(self, e):
        r = {}
        for a, c in e.items():
            if a in self.eqs:
                for x, k in self.eqs[a].items():
                    v = r.get(x, 0) + k * c
                    if v: r[x] = v
                    else: r.pop(x, None)
            else:
                v = r.get(a, 0) + c
                if v: r[a] = v
                else: r.pop(a, None)
        return r
    def add_eq(self, e, prefer=None):
        if self.bot: return self
        e = self.reduce(e)
        if is_const(e):
            if cval(e) != 0: self.bot = True
            return self
        cands = [a for a in e if a != ONE]
        # integrality of a single variable
        piv = prefer if prefer in cands else self.pivot(e, cands)
        c = e[piv]
        rhs = {a: -k / c for a, k in e.items() if a != piv}
        if all(a == ONE for a in rhs) and cval(rhs).denominator != 1:
            self.bot = True
            return self
        for p in list(self.eqs):
            r = self.eqs[p]
            if piv in r:
                k = r[piv]
                r = {a: v for a, v in r.items() if a != piv}
                self.eqs[p] = add(r, rhs, k)
        self.eqs[piv] = rhs
        for d in ("ges", "nes"):
            old = getattr(self, d)
            setattr(self, d, {})
            for x in old.values():
                if d == "ges": self.add_ge(x)
                else: self.add_ne(x)
        return self
    def pivot(self, e, cands):
        # a quantity with the largest coefficient denominator-free unit: keeps index variables, eliminates addresses
        m = min(abs(e[a]) for a in cands)
        return max(cands, key=lambda a: (abs(e[a]) == m, not str(a).startswith("arg"), str(a)))
    def add_ge(self, e):
        if self.bot: return self
        e = self.reduce(e)
        if is_const(e):
            if cval(e) < 0: self.bot = True
            return self
        e = norm_ge(e)
        h = key({a: c for a, c in e.items() if a != ONE})
        old = self.ges.get(h)
        if old is not None and cval(old) <= cval(e): return self
        self.ges[h] = e
        # opposite bound -> equality or contradiction
        n = scale(e, -1)
        hn = key({a: c for a, c in n.items() if a != ONE})
        o = self.ges.get(hn)
        if o is not None:
            s = cval(e) + cval(o)
            if s < 0: self.bot = True
            elif s == 0:
                del self.ges[h]; del self.ges[hn]
                self.add_eq(e)
                return self
        # disequality tightening
        for k2, d in list(self.nes.items()):
            if d == e or d == n:
                if h in self.ges and self.ges[h] == e:
                    del self.ges[h]
                    self.nes.pop(k2, None)
                    return self.add_ge(add(e, const(-1)))
        return self
    def add_ne(self, e):
        if self.bot: return self
        e = self.reduce(e)
        if is_const(e):
            if cval(e) == 0: self.bot = True
            return self
        e = norm_ge(e) if True else e
        # tighten existing bounds
        for s in (e, scale(e, -1)):
            h = key({a: c for a, c in s.items() if a != ONE})
            o = self.ges.get(h)
            if o == s:
                del self.ges[h]
                return self.add_ge(add(s, const(-1)))
        neg = scale(e, -1)
        if key(neg) in self.nes: return self
        self.nes[key(e)] = e
        return self
    # --- feasibility -------------------------------------------------------
    def _feasible(self, extra):
        if self.bot: return False
        rows = []
        for e in extra:
            e = self.reduce(e)
            if is_const(e):
                if cval(e) < 0: return False
                continue
            rows.append(norm_ge(e))
        if not rows and extra: return True
        # connected component
        pool = list(self.ges.values())
        if extra:
            seen = set(a for r in rows for a in r if a != ONE)
            ch = True
            used = []
            while ch:
                ch = False
                for e in list(pool):
                    if any(a in seen for a in e if a != ONE):
                        pool.remove(e); used.append(e)
                        seen |= set(a for a in e if a != ONE)
                        ch = True
            rows += used
        else:
            rows = pool
        return fm_feasible(rows)
    def feasible(self): return self._feasible([])
    def entails_ge(self, e):
        if self.bot: return True
        neg = add(scale(e, -1), const(-1))
        if not self._feasible([neg]): return True
        if not self.nes: return False
        # case split free strengthening: a disequality turns a known bound (under the negated goal) into a strict one
        extra = [neg]
        for n in self.nes.values():
            for s in (n, scale(n, -1)):
                if not self._feasible(extra + [add(scale(s, -1), const(-1))]):
                    extra.append(add(s, const(-1)))
                    break
        return len(extra) > 1 and not self._feasible(extra)
    def entails_eq(self, e):
        if self.bot: return True
        r = self.reduce(e)
        if is_const(r): return cval(r) == 0
        return self.entails_ge(e) and self.entails_ge(scale(e, -1))
    def entails_ne(self, e):
        if self.bot: return True
        r = self.reduce(e)
        if is_const(r): return cval(r) != 0
        n = norm_ge(r)
        if key(n) in self.nes or key(scale(n, -1)) in self.nes: return True
        return self.entails_ge(add(e, const(-1))) or self.entails_ge(add(scale(e, -1), const(-1)))
    # --- projection ---------------------------------------------------------
    def forget(self, atoms):
        if self.bot: return self
        for a in atoms:
            # use an equality to substitute the atom away
            if a in self.eqs:
                rhs = self.eqs.pop(a)
                # atom occurs nowhere else (RREF); drop
                continue
            src = None
            for p, rhs in self.eqs.items():
                if a in rhs:
                    src = p
                    break
            if src is not None:
                rhs = self.eqs.pop(src)
                c = rhs[a]
                # a = (src - rest)/c
                sol = add(scale({x: k for x, k in rhs.items() if x != a}, F(-1) / c), {src: F(1) / c})
                def sb(e):
                    if a not in e: return e
                    k = e[a]
                    return add({x: v for x, v in e.items() if x != a}, sol, k)
                self.eqs = {p: sb(r) for p, r in self.eqs.items()}
                for d, f in (("ges", "add_ge"), ("nes", "add_ne")):
                    old = getattr(self, d); setattr(self, d, {})
                    for x in old.values(): getattr(self, f)(sb(x))
                continue
            self.nes = {k: e for k, e in self.nes.items() if a not in e}
            pos = [e for e in self.ges.values() if e.get(a, 0) > 0]
            neg = [e for e in self.ges.values() if e.get(a, 0) < 0]
            if pos or neg:
                self.ges = {k: e for k, e in self.ges.items() if a not in e}
                if len(pos) * len(neg) <= 64:
                    for p in pos:
                        for n in neg:
                            self.add_ge(add(scale(p, -n[a]), scale(n, p[a])))
        return self
    def atoms(self):
        s = set()
        for p, r in self.eqs.items():
            s.add(p); s |= set(r)
        for d in (self.ges, self.nes):
            for e in d.values(): s |= set(e)
        s.discard(ONE)
        return s
    # --- lattice ------------------------------------------------------------
    def eq_rows(self):
        return [add(atom(p), r, -1) for p, r in self.eqs.items()]
    def join(self, o, widen=False):
        if self.bot: return o.copy()
        if o.bot: return self.copy()
        r = Poly()
        for e in row_intersection(self.eq_rows(), o.eq_rows()): r.add_eq(e)
        cand = list(self.ges.values()) + ([] if widen else self.lost_eq_forms(r))
        for e in self.eq_rows(): cand += [e, scale(e, -1)]
        for e in cand:
            if o.entails_ge(e): r.add_ge(e)
        if not widen:
            cand = list(o.ges.values()) + o.lost_eq_forms(r)
            for e in o.eq_rows(): cand += [e, scale(e, -1)]
            # bounds in which a quantity that is a constant on this side only takes the constant's place
            for p, rhs in o.eqs.items():
                if is_const(rhs) and not is_const(r.reduce(atom(p))):
                    row = sub(atom(p), rhs)
                    if not cval(rhs): continue
                    for e in o.ges.values():
                        if ONE in e: cand.append(add(e, row, cval(e) / cval(rhs)) if False else (sub(e, row) if cval(e) < 0 else add(e, row)))
            for e in cand:
                if self.entails_ge(e): r.add_ge(e)
        for e in list(self.nes.values()) + ([] if widen else list(o.nes.values())):
            if self.entails_ne(e) and o.entails_ne(e): r.add_ne(e)
        return r
    def lost_eq_forms(self, r):
        """this side's bounds written with the other name of a quantity whose equality the join r does not keep"""
        out = []
        for p, rhs in self.eqs.items():
            a = [x for x in rhs if x != ONE]
            if len(a) != 1 or abs(rhs[a[0]]) != 1: continue
            row = add(atom(p), rhs, -1)
            if r.reduce(row) == {}: continue
            for e in self.ges.values():
                if a[0] in e and len(e) <= 3: out.append(add(e, row, e[a[0]] / rhs[a[0]]))
        return out
    def leq(self, o):
        """self implies o"""
        if self.bot: return True
        if o.bot: return False
        return (all(self.entails_eq(e) for e in o.eq_rows()) and all(self.entails_ge(e) for e in o.ges.values())
                and all(self.entails_ne(e) for e in o.nes.values()))
    def same(self, o): return self.leq(o) and o.leq(self)
    def show(self, nm=str):
        def ex(e): return " ".join("%+s*%s" % (c, nm(a)) if a != ONE else "%+s" % c for a, c in sorted(e.items(), key=lambda x: str(x[0])))
        if self.bot: return "BOTTOM"
        return "; ".join(["%s = %s" % (nm(p), ex(r) or 0) for p, r in self.eqs.items()] + [ex(e) + " >= 0" for e in self.ges.values()] + [ex(e) + " != 0" for e in self.nes.values()])

def fm_feasible(rows):
    rows = {key(r): r for r in rows}.values()
    rows = list(rows)
    n = 0
    while True:
        n += 1
        for r in rows:
            if is_const(r) and cval(r) < 0: return False
        rows = [r for r in rows if not is_const(r)]
        cnt = {}
        for r in rows:
            for a, c in r.items():
                if a != ONE:
                    p = cnt.setdefault(a, [0, 0])
                    p[0 if c > 0 else 1] += 1
        if not cnt: return True
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], str(x)))
        if cnt[a][0] * cnt[a][1] > 4000: return True   # give up: "maybe feasible" is the sound answer
        pos = [r for r in rows if r.get(a, 0) > 0]
        neg = [r for r in rows if r.get(a, 0) < 0]
        rest = {}
        def put(r):
            h = key({x: c for x, c in r.items() if x != ONE})
            o = rest.get(h)
            if o is None or cval(r) < cval(o): rest[h] = r
        for r in rows:
            if a not in r: put(r)
        for p in pos:
            for q in neg:
                r = norm_ge(add(scale(p, -q[a]), scale(q, p[a])))
                if is_const(r):
                    if cval(r) < 0: return False
                    continue
                put(r)
        # opposite rows with a gap
        rows = list(rest.values())
        if len(rows) > 600: return True

def rref(rows, cols):
    rows = [dict(r) for r in rows]
    out = []
    for c in cols:
        p = None
        for r in rows:
            if r.get(c, 0): p = r; break
        if p is None: continue
        rows.remove(p)
        k = p[c]
        p = {a: v / k for a, v in p.items()}
        rows = [add(r, p, -r[c]) if r.get(c, 0) else r for r in rows]
        out = [add(r, p, -r[c]) if r.get(c, 0) else r for r in out]
        out.append(p)
    return out

def row_intersection(A, B):
    """basis of span(A) ∩ span(B) (rows are homogenised equalities)"""
    if not A or not B: return []
    # solve sum l_i A_i - sum m_j B_j = 0
    n, m = len(A), len(B)
    cols = sorted(set(a for r in A + B for a in r), key=str)
    # build matrix with one row per column atom, unknowns l0.., m0..
    M = []
    for c in cols:
        row = {}
        for i, r in enumerate(A):
            if r.get(c, 0): row[("l", i)] = r[c]
        for j, r in enumerate(B):
            if r.get(c, 0): row[("m", j)] = -r[c]
        if row: M.append(row)
    unk = [("l", i) for i in range(n)] + [("m", j) for j in range(m)]
    R = rref(M, unk)
    piv = []
    for r in R:
        for u in unk:
            if r.get(u, 0): piv.append(u); break
    free = [u for u in unk if u not in piv]
    res = []
    for f in free:
        sol = {f: F(1)}
        for r, p in zip(R, piv):
            if r.get(f, 0): sol[p] = -r[f]
        e = {}
        for (t, i), v in sol.items():
            if t == "l": e = add(e, A[i], v)
        if e: res.append(e)
    return res

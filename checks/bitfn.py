"""A bit-level dataflow domain: every bit of every integer is 0, 1 or a boolean function (a truth table) of few named input bits.
Loops whose trip count is known are followed round by round; constant tables are read for all values an index can have; std::string
objects are lists of such bytes. Nothing is executed: a value stands for all inputs of the shape that is analysed."""
from functools import lru_cache
from lib import *
from checks.bits import table
WID = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}
LIMIT = 14

# ---- bits: 0, 1 or (syms, tt): syms sorted tuple, tt the function's value for every assignment
@lru_cache(maxsize=None)
def without(j, n):
    """the assignments of n symbols in which symbol j is 0"""
    blk = (1 << (1 << j)) - 1; r = 0
    for x in range(0, 1 << n, 2 << j): r |= blk << x
    return r
def insert(tt, j, n):
    """a table over n symbols as one over n+1, symbol j being new"""
    w = 1 << j; blk = (1 << w) - 1; r = 0
    for k in range(1 << (n - j)):
        b = tt >> (k * w) & blk
        if b: r |= (b | b << w) << (2 * k * w)
    return r
def drop(tt, j, n):
    """a table over n symbols that does not depend on symbol j as one over n-1"""
    w = 1 << j; blk = (1 << w) - 1; r = 0
    for k in range(1 << (n - 1 - j)): r |= (tt >> (2 * k * w) & blk) << (k * w)
    return r
@lru_cache(maxsize=None)
def expand(tt, pos, n):
    """tt over len(pos) symbols, symbol j of it is symbol pos[j] of n"""
    m = len(pos)
    for j in range(n):
        if j not in pos: tt = insert(tt, j, m); m += 1
    return tt
@lru_cache(maxsize=None)
def reduce_(tt, n):
    keep = [j for j in range(n) if (tt ^ tt >> (1 << j)) & without(j, n)]
    for j in reversed(range(n)):
        if j not in keep: tt = drop(tt, j, n); n -= 1
    return tuple(keep), tt
@lru_cache(maxsize=None)
def comb_rel(op, ta, pa, tb, pb, n):
    a, b = expand(ta, pa, n), expand(tb, pb, n)
    t = a & b if op == "and" else a | b if op == "or" else a ^ b
    return reduce_(t, n)
class TooWide(Exception): pass
def mk(syms, tt, n=None):
    k, t = reduce_(tt, len(syms))
    return (t & 1) if not k else (tuple(syms[j] for j in k), t)
def comb(op, a, b):
    if isinstance(a, int) or isinstance(b, int):
        if isinstance(a, int) and isinstance(b, int): return a & b if op == "and" else a | b if op == "or" else a ^ b
        if isinstance(b, int): a, b = b, a
        if op == "and": return b if a else 0
        if op == "or": return 1 if a else b
        return neg(b) if a else b
    if a[0] == b[0]: syms = a[0]
    else: syms = tuple(sorted(set(a[0]) | set(b[0])))
    if len(syms) > LIMIT: raise TooWide()
    ix = {s: j for j, s in enumerate(syms)}
    k, t = comb_rel(op, a[1], tuple(ix[s] for s in a[0]), b[1], tuple(ix[s] for s in b[0]), len(syms))
    return (t & 1) if not k else (tuple(syms[j] for j in k), t)
def neg(a): return 1 - a if isinstance(a, int) else (a[0], a[1] ^ ((1 << (1 << len(a[0]))) - 1))
def mux(c, a, b): return a if a == b else comb("or", comb("and", c, a), comb("and", neg(c), b))

# ---- words: an int or a tuple of bits, least significant first
def bits_of(v, w): return tuple(v >> k & 1 for k in range(w)) if isinstance(v, int) else tuple(v[:w]) + (0,) * (w - len(v))
def word(bits): return sum(b << k for k, b in enumerate(bits)) if all(isinstance(b, int) for b in bits) else tuple(bits)
def syms_of(bits): return tuple(sorted({s for b in bits if not isinstance(b, int) for s in b[0]}))
def at(b, syms, x):
    if isinstance(b, int): return b
    y = 0
    for j, s in enumerate(b[0]): y |= (x >> syms.index(s) & 1) << j
    return b[1] >> y & 1
def values(v, w):
    """(symbols, the word's value for every assignment)"""
    b = bits_of(v, w); S = syms_of(b)
    if len(S) > LIMIT: raise TooWide()
    return S, [sum(at(x, S, a) << k for k, x in enumerate(b)) for a in range(1 << len(S))]
def function(syms, vals, w):
    """the word whose value under assignment a is vals[a]"""
    return word([mk(syms, sum((v >> k & 1) << a for a, v in enumerate(vals))) if syms else vals[0] >> k & 1 for k in range(w)])
def fresh(names): return tuple(names)
def choose(name, choices):
    """a byte that is one of the given values, every one of them possible"""
    choices = list(choices)
    if len(choices) == 1: return choices[0]
    n = (len(choices) - 1).bit_length(); S = tuple((name, j) for j in range(n))
    return function(S, [choices[a % len(choices)] for a in range(1 << n)], 8)
_lk = {}
def lookup(tab, size, idx, key):
    """the size bytes of the table at every value idx can have; None if one is outside"""
    S = syms_of(idx); ix = {s: j for j, s in enumerate(S)}
    if len(S) > LIMIT: raise TooWide()
    rel = tuple(b if isinstance(b, int) else (tuple(ix[s] for s in b[0]), b[1]) for b in idx)
    kk = (key, size, rel)
    if kk not in _lk:
        R = tuple(range(len(S))); ok = True; vals = []
        for a in range(1 << len(S)):
            x = sum(at(b, R, a) << k for k, b in enumerate(rel))
            if x + size > len(tab): ok = False; break
            vals.append(int.from_bytes(tab[x:x + size], "little"))
        _lk[kk] = [mk(R, sum((v >> k & 1) << a for a, v in enumerate(vals))) if R else vals[0] >> k & 1 for k in range(8 * size)] if ok else None
    r = _lk[kk]
    return None if r is None else word([b if isinstance(b, int) else (tuple(S[j] for j in b[0]), b[1]) for b in r])
def same(a, b, w, conds=()):
    """whether the two words are equal whenever the conditions hold"""
    for x, y in zip(bits_of(a, w), bits_of(b, w)):
        d = comb("xor", x, y)
        if d == 0: continue
        for c in conds:
            if isinstance(d, int) or set(c[0]) & set(d[0]): d = comb("and", d, c)
        if d != 0: return False
    return True

class Ptr:
    __slots__ = ("o", "k")
    def __init__(self, o, k=0): self.o = o; self.k = k
    def __eq__(self, x): return isinstance(x, Ptr) and (self.o, self.k) == (x.o, x.k)
    def __hash__(self): return hash((self.o, self.k))
    def __repr__(self): return "Ptr(%r,%r)" % (self.o, self.k)
class Bad(Exception):
    def __init__(self, i, msg): self.i = i; self.msg = msg
class State:
    def __init__(self): self.val = {}; self.mem = {}; self.strs = {}; self.conds = []; self.ev = []
    def copy(self):
        s = State(); s.val = dict(self.val); s.mem = dict(self.mem); s.strs = {k: list(v) for k, v in self.strs.items()}; s.conds = list(self.conds); s.ev = list(self.ev); return s

class Flow:
    """args: one int / tuple of bits / Ptr per argument; inputs: {object: list of bytes} readable memory"""
    def __init__(self, u, f, args, inputs, max_steps=4000, on_call=None, mem=None, limits=None, unknown=False, distinct=None):
        self.u = u; self.f = f; self.args = args; self.inputs = inputs; self.max = max_steps; self.ends = []; self.on_call = on_call
        self.mem0 = mem or {}; self.limits = limits or {}; self.unknown = unknown; self.distinct = distinct
    def run(self):
        s0 = State(); s0.mem = dict(self.mem0)
        st = [(0, None, s0, 0)]
        while st:
            b, prev, p, n = st.pop()
            while True:
                n += 1
                if n > self.max: raise Bad(self.f.blocks[b][-1], "does not come to an end for this length")
                if len(st) > 4096: raise Broken("%s: too many undecided branches" % self.f.q)
                news = [(i.id, next((self.op(p, o, i.ty) for pb, o in i.d["inc"] if pb == prev), None)) for i in self.f.blocks[b] if i.op == "phi"]
                for k, v in news: p.val[k] = v
                for i in self.f.blocks[b]:
                    if i.op != "phi":
                        try: self.instr(p, i)
                        except TooWide: p.val[i.id] = None
                t = self.f.blocks[b][-1]; succ = self.f.succ[b]
                if t.op == "ret": self.ends.append((p, self.op(p, t.ops[0], t.ty) if t.ops else None)); break
                if t.op in ("unreachable", "resume"): raise Bad(t, "runs into undefined behaviour")
                if t.op == "br" and t.ops:
                    c = self.op(p, t.ops[0], "i1")
                    if c is None and not self.unknown: raise Broken("%s: a branch depends on more than is tracked (%s)" % (self.f.q, self.f.loc(t)))
                    if c is None:
                        st.append((succ[0], b, p.copy(), n)); prev, b = b, succ[1]; continue
                    c = c if isinstance(c, int) else c[0]
                    if isinstance(c, int): nxt = succ[0] if c & 1 else succ[1]
                    else:
                        for side, k in ((0, c), (1, neg(c))):
                            if side == 0:
                                if self.feasible(p.conds + [k]):
                                    q = p.copy(); q.conds.append(k); st.append((succ[0], b, q, n))
                        nk = neg(c)
                        if not self.feasible(p.conds + [nk]): break
                        p.conds.append(nk); nxt = succ[1]
                elif t.op == "switch":
                    x = self.op(p, t.ops[0], None)
                    if x is None: raise Broken("%s: a switch depends on more than is tracked" % self.f.q)
                    if isinstance(x, int): nxt = {int(c) & (1 << 64) - 1: s for c, s in t.d["cases"]}.get(x, t.d["def"])
                    else: raise Broken("%s: a switch on data" % self.f.q)
                else: nxt = succ[0]
                prev, b = b, nxt
        return self.ends
    def feasible(self, cs):
        r = 1
        try:
            for c in cs: r = comb("and", r, c)
        except TooWide: return True
        return r != 0
    def width(self, o, ty):
        if isinstance(o, str) and o.startswith("%"):
            n = int(o[1:])
            if n < len(self.f.args): return WID.get(self.f.args[n][1], 64)
            j = self.f.ins.get(n)
            if j is not None: return WID.get(j.ty, 64)
        return WID.get(ty, 64)
    def op(self, p, o, ty=None):
        if isinstance(o, bool): return int(o)
        if isinstance(o, int): return o & ((1 << WID.get(ty, 64)) - 1)
        if o in ("null", "zero"): return 0
        if o in ("undef", "poison"): return None
        if isinstance(o, str) and o.startswith("%"):
            n = int(o[1:])
            return self.args[n] if n < len(self.f.args) else p.val.get(n)
        if isinstance(o, str) and o.startswith("@"): return Ptr(o)
        if isinstance(o, dict) and "base" in o: return self.gep(p, o)
        return None
    def gep(self, p, d):
        b = self.op(p, d["base"])
        if not isinstance(b, Ptr): return None
        k = self.add(b.k, d["off"] & FULL, 64)
        for v, s in d.get("var", []):
            e = self.op(p, v)
            if e is None or isinstance(e, Ptr): return None
            w = self.width(v, "i64")
            e = self.sext(e, w, 64)
            k = self.add(k, self.mulc(e, s, 64), 64)
        return Ptr(b.o, k)
    def sext(self, e, w, W):
        if isinstance(e, int): return (e | (FULL << w) & ((1 << W) - 1)) & ((1 << W) - 1) if e >> (w - 1) & 1 else e
        b = bits_of(e, w); return word(b + (b[-1],) * (W - w))
    def mulc(self, e, c, w):
        if isinstance(e, int): return e * c & ((1 << w) - 1)
        r = 0; c &= (1 << w) - 1; k = 0
        while c >> k:
            if c >> k & 1: r = self.add(r, word(((0,) * k + bits_of(e, w))[:w]), w)
            k += 1
        return r
    def add(self, a, b, w, cin=0):
        if isinstance(a, int) and isinstance(b, int): return (a + b + cin) & ((1 << w) - 1)
        A, B = bits_of(a, w), bits_of(b, w); c = cin; out = []
        for x, y in zip(A, B):
            xy = comb("xor", x, y); out.append(comb("xor", xy, c))
            c = comb("or", comb("and", x, y), comb("and", xy, c))
        return word(out)
    def lt(self, a, b, w):
        r = 0
        for x, y in zip(bits_of(a, w), bits_of(b, w)): r = mux(comb("xor", x, y), y, r)
        return r
    def cmp(self, pr, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            m = (1 << w) - 1; a &= m; b &= m
            if pr[0] == "s": a, b = [v - (1 << w) if v >> (w - 1) else v for v in (a, b)]
            k = pr if pr in ("eq", "ne") else pr[1:]
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[k])
        if pr in ("eq", "ne"):
            ds = [comb("xor", x, y) if isinstance(x, int) or isinstance(y, int) else (x, y) for x, y in zip(bits_of(a, w), bits_of(b, w))]
            if any(d == 1 for d in ds): r = 1
            else:
                r = 0
                for d in ds:
                    if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], tuple): d = comb("xor", *d)
                    r = comb("or", r, d)
            return neg(r) if pr == "eq" else r
        if pr[0] == "s":
            f = lambda v: word(bits_of(v, w)[:-1] + (neg(bits_of(v, w)[-1]),))
            a, b = f(a), f(b)
        k = pr[1:]
        if k == "lt": return self.lt(a, b, w)
        if k == "gt": return self.lt(b, a, w)
        if k == "ge": return neg(self.lt(a, b, w))
        return neg(self.lt(b, a, w))
    def alu(self, op, a, b, w):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "sub" and a.o == b.o: return self.alu("sub", a.k, b.k, w)
        if isinstance(a, Ptr) and op in ("add", "sub") and isinstance(b, (int, tuple)): return Ptr(a.o, self.alu(op, a.k, b, w))
        if isinstance(a, Ptr) or isinstance(b, Ptr) or a is None or b is None: return None
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            a &= m; b &= m
            if op == "add": return (a + b) & m
            if op == "sub": return (a - b) & m
            if op == "mul": return a * b & m
            if op == "or": return a | b
            if op == "and": return a & b
            if op == "xor": return a ^ b
            if op == "shl": return a << b & m if b < w else None
            if op == "lshr": return a >> b if b < w else None
            sa, sb = a - (1 << w) if a >> (w - 1) else a, b - (1 << w) if b >> (w - 1) else b
            if op == "ashr": return (sa >> b) & m if b < w else None
            if not b: return None
            if op == "udiv": return a // b
            if op == "urem": return a % b
            q = abs(sa) // abs(sb); q = q if (sa < 0) == (sb < 0) else -q
            if op == "sdiv": return q & m
            if op == "srem": return (sa - q * sb) & m
            return None
        if op in ("and", "or", "xor"): return word([comb(op, x, y) for x, y in zip(bits_of(a, w), bits_of(b, w))])
        if op == "add": return self.add(a, b, w)
        if op == "sub": return self.add(a, word([neg(x) for x in bits_of(b, w)]), w, 1)
        if op == "mul":
            if isinstance(a, int): a, b = b, a
            return self.mulc(a, b, w) if isinstance(b, int) else None
        if isinstance(b, int):
            A = bits_of(a, w)
            if op == "shl": return word(((0,) * b + A)[:w]) if b < w else None
            if op == "lshr": return word(A[b:] + (0,) * b) if b < w else None
            if op == "ashr": return word(A[b:] + (A[-1],) * b) if b < w else None
            if op in ("udiv", "urem") and b and b & (b - 1) == 0:
                k = b.bit_length() - 1
                return word(A[k:] + (0,) * k) if op == "udiv" else word(A[:k] + (0,) * (w - k))
        # whatever else: through all values
        S = syms_of(bits_of(a, w) + bits_of(b, w))
        if len(S) > 10: return None
        A, B = bits_of(a, w), bits_of(b, w); vals = []
        for x in range(1 << len(S)):
            r = self.alu(op, sum(at(t, S, x) << k for k, t in enumerate(A)), sum(at(t, S, x) << k for k, t in enumerate(B)), w)
            if r is None: return None
            vals.append(r)
        return function(S, vals, w)
    def load(self, p, i, a, n):
        """n bytes"""
        if not isinstance(a, Ptr): return None
        if isinstance(a.o, tuple) and a.o[0] == "buf":
            s = p.strs.get(a.o[1])
            if s is None: return None
            if not isinstance(a.k, int) or a.k + n > len(s) + 1: raise Bad(i, "reads outside a string of %d bytes" % len(s))
            return word(sum((bits_of(x, 8) for x in (s + [0])[a.k:a.k + n]), ()))
        if a.o in self.inputs:
            data = self.inputs[a.o]
            if not isinstance(a.k, int):
                S, vs = values(a.k, 64)
                if any(v + n > len(data) for v in vs): raise Bad(i, "reads outside the %d bytes given" % len(data))
                return None
            if a.k + n > len(data): raise Bad(i, "reads byte %d of %d bytes given" % (a.k if a.k < 1 << 63 else a.k - (1 << 64), len(data)))
            return word(sum((bits_of(x, 8) for x in data[a.k:a.k + n]), ()))
        if isinstance(a.o, str) and a.o.startswith("@") and isinstance(a.k, int) and (a.o, a.k) in p.mem: pass
        elif isinstance(a.o, str) and a.o.startswith("@"):
            t = table(self.u.globals.get(a.o[1:], {}))
            if t is None: return None
            r = lookup(t, n, bits_of(a.k, 64), a.o)
            if r is None: raise Bad(i, "reads outside a table of %d bytes" % len(t))
            return r
        if isinstance(a.k, int):
            bs = [p.mem.get((a.o, a.k + j)) for j in range(n)]
            if any(b is None or isinstance(b, Ptr) for b in bs): return None
            return word(sum((bits_of(x, 8) for x in bs), ()))
        return None
    def instr(self, p, i):
        op = i.op; w = WID.get(i.ty, 64)
        if op in ("add", "sub", "mul", "or", "and", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            p.val[i.id] = self.alu(op, self.op(p, i.ops[0], i.ty), self.op(p, i.ops[1], i.ty), w)
        elif op == "getelementptr": p.val[i.id] = self.gep(p, i.d)
        elif op == "alloca": p.val[i.id] = Ptr(("local", i.id))
        elif op in ("freeze", "bitcast"): p.val[i.id] = self.op(p, i.ops[0], i.ty)
        elif op == "zext": p.val[i.id] = self.op(p, i.ops[0], i.ty)
        elif op == "sext":
            v = self.op(p, i.ops[0], i.ty)
            p.val[i.id] = None if v is None or isinstance(v, Ptr) else self.sext(v, self.width(i.ops[0], "i32"), w)
        elif op == "trunc":
            v = self.op(p, i.ops[0])
            p.val[i.id] = v & ((1 << w) - 1) if isinstance(v, int) else word(v[:w]) if isinstance(v, tuple) else None
        elif op == "icmp":
            a, b = self.op(p, i.ops[0]), self.op(p, i.ops[1]); pr = i.d["pred"]
            p.val[i.id] = None
            cw = max(self.width(o, None) for o in i.ops if isinstance(o, str) and o.startswith("%")) if any(isinstance(o, str) and o.startswith("%") for o in i.ops) else 64
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o: p.val[i.id] = self.flat(self.cmp(pr, a.k, b.k, 64))
                elif self.distinct and self.distinct(a.o) and self.distinct(b.o) and pr in ("eq", "ne"): p.val[i.id] = int(pr == "ne")
            elif isinstance(a, Ptr) or isinstance(b, Ptr):
                if 0 in (a, b) and pr in ("eq", "ne"): p.val[i.id] = int(pr == "ne")
            elif a is not None and b is not None: p.val[i.id] = self.flat(self.cmp(pr, a, b, cw))
        elif op == "ptrtoint":
            p.val[i.id] = self.op(p, i.ops[0])
        elif op == "select":
            c = self.op(p, i.ops[0], "i1"); a, b = self.op(p, i.ops[1], i.ty), self.op(p, i.ops[2], i.ty)
            if isinstance(c, int): p.val[i.id] = a if c else b
            elif c is None or a is None or b is None or isinstance(a, Ptr) or isinstance(b, Ptr): p.val[i.id] = a if isinstance(a, Ptr) and a == b else None
            else: p.val[i.id] = word([mux(c[0], x, y) for x, y in zip(bits_of(a, w), bits_of(b, w))])
        elif op == "load":
            a = self.op(p, i.ops[0])
            if i.ty == "ptr": p.val[i.id] = p.mem.get((a.o, a.k)) if isinstance(a, Ptr) and isinstance(a.k, int) else None
            else: p.val[i.id] = self.load(p, i, a, max(w // 8, 1))
        elif op == "store":
            a = self.op(p, i.ops[1]); j = self.f.val(i.ops[0]); ty = j.ty if j is not None else i.d.get("ty", None)
            n = max(self.store_width(i) // 8, 1); v = self.op(p, i.ops[0])
            if not isinstance(a, Ptr): return
            if isinstance(v, Ptr): p.mem[(a.o, a.k)] = v; return
            if not isinstance(a.k, int): p.mem = {k: x for k, x in p.mem.items() if k[0] != a.o}; return
            b = [None] * n if v is None else [word(bits_of(v, 8 * n)[8 * k:8 * k + 8]) for k in range(n)]
            self.put(p, i, a, b)
        elif op in ("call", "invoke"): self.call(p, i)
    def flat(self, c): return c if isinstance(c, int) or c is None else (c,)
    def store_width(self, i):
        o = i.ops[0]
        if isinstance(o, str) and o.startswith("%"): return self.width(o, None)
        return WID.get(i.d.get("sty"), 64)
    def put(self, p, i, a, bs):
        if isinstance(a.o, tuple) and a.o[0] == "buf":
            s = p.strs.get(a.o[1])
            if s is None: return
            if a.k + len(bs) > len(s): raise Bad(i, "writes byte %d of a string of %d bytes" % (a.k + len(bs) - 1, len(s)))
            s[a.k:a.k + len(bs)] = bs
        else:
            lim = self.limits.get(a.o)
            if lim is not None and a.k + len(bs) > lim: raise Bad(i, "writes byte %d of %d bytes" % (a.k + len(bs) - 1, lim))
            p.mem.pop((a.o, a.k), None)
            for k, x in enumerate(bs): p.mem[(a.o, a.k + k)] = x
    def readn(self, p, i, a, n):
        return [self.load(p, i, Ptr(a.o, a.k + k), 1) for k in range(n)]
    def call(self, p, i):
        c = cname(self.u, i) or callee_of(i) or ""; A = [self.op(p, o) for o in i.ops]
        p.val[i.id] = None
        if self.on_call is not None:
            r = self.on_call(self, p, i, c, A)
            if r is not None: p.val[i.id] = None if r == "?" else r; return
        raw = callee_of(i) or ""
        if raw.startswith("llvm.expect"): p.val[i.id] = A[0]; return
        if raw.startswith("llvm.mem") or c in ("memcpy", "memmove", "memset"):
            if len(A) < 3 or not isinstance(A[0], Ptr) or not isinstance(A[2], int): return
            if "set" in (raw if raw.startswith("llvm") else c): bs = [A[1]] * A[2]
            elif isinstance(A[1], Ptr):
                if A[2] == 0: return
                pv = {k: x for k, x in p.mem.items() if k[0] == A[1].o and isinstance(x, Ptr) and A[1].k <= k[1] < A[1].k + A[2]} if isinstance(A[1].k, int) else {}
                bs = self.readn(p, i, A[1], A[2])
                self.put(p, i, A[0], bs)
                for (o, k), x in pv.items(): p.mem[(A[0].o, A[0].k + k - A[1].k)] = x
                return
            else: return
            self.put(p, i, A[0], bs); return
        if raw.startswith("llvm."): return
        name = c.split("::")[-1]
        if "basic_string" in c and A and isinstance(A[0], Ptr): return self.string(p, i, name, A)
        if re.match(r"std::operator\+$", c): raise Broken("%s: a string is built by %s" % (self.f.q, c))
        if re.match(r"std::(allocator|__new_allocator).*", c): return
        if c == "std::make_error_code" or c.startswith("std::error_code::"): return
        if c == "isspace" or c == "isdigit":
            cls = b" \t\n\v\f\r" if c == "isspace" else b"0123456789"
            if A[0] is None: return
            S, vs = values(A[0], 32)
            p.val[i.id] = function(S, [int(v < 256 and v in cls) for v in vs], 32); return
        if c in ("std::__throw_length_error", "std::terminate", "abort", "__clang_call_terminate"): raise Bad(i, "fails")
        raise Broken("%s calls %s, which is not modelled (%s)" % (self.f.q, c or "something unknown", self.f.loc(i)))
    def buf(self, p, i, s):
        if s not in p.strs: raise Broken("%s: a string of unknown content (%s)" % (self.f.q, self.f.loc(i)))
        return p.strs[s]
    def string(self, p, i, name, A):
        S = A[0]; T = p.strs
        def text(j):
            """the bytes given by the arguments from j on"""
            a = A[j]
            if isinstance(a, Ptr) and a in T: return list(T[a])
            if isinstance(a, Ptr):
                n = A[j + 1] if len(A) > j + 1 else None
                if isinstance(n, int): return self.readn(p, i, a, n)
                if isinstance(a.o, str) and a.o.startswith("@"):
                    t = table(self.u.globals.get(a.o[1:], {}))
                    if t is not None and isinstance(a.k, int): return list(t[a.k:].split(b"\0")[0])
            elif len(A) > j + 1 and isinstance(a, int) and (isinstance(A[j + 1], (int, tuple))): return [A[j + 1]] * a
            raise Broken("%s: a string's content is not known (%s)" % (self.f.q, self.f.loc(i)))
        if name == "basic_string": T[S] = [] if len(A) == 1 or (len(A) == 2 and A[1] is None) or (len(A) == 2 and isinstance(A[1], Ptr) and A[1] not in T and isinstance(A[1].o, tuple) and A[1].o[0] == "local") else text(1)
        elif name == "~basic_string": pass
        elif name in ("reserve", "shrink_to_fit"): pass
        elif name == "push_back": self.buf(p, i, S).append(A[1])
        elif name == "operator+=":
            a = A[1]; self.buf(p, i, S).extend([a] if isinstance(a, (int, tuple)) else text(1)); p.val[i.id] = S
        elif name == "append": self.buf(p, i, S).extend(text(1)); p.val[i.id] = S
        elif name in ("operator=", "assign"):
            a = A[1]; T[S] = [a] if name == "operator=" and isinstance(a, (int, tuple)) else text(1); p.val[i.id] = S
        elif name in ("size", "length"): p.val[i.id] = len(self.buf(p, i, S))
        elif name == "empty": p.val[i.id] = int(not self.buf(p, i, S))
        elif name in ("data", "c_str"): p.val[i.id] = Ptr(("buf", S))
        elif name in ("operator[]", "at"):
            n = len(self.buf(p, i, S))
            if isinstance(A[1], int) and A[1] > n - (name == "at"): raise Bad(i, "element %d of a string of %d bytes" % (A[1], n))
            p.val[i.id] = Ptr(("buf", S), A[1])
        elif name == "front": p.val[i.id] = Ptr(("buf", S), 0)
        elif name == "back":
            if not self.buf(p, i, S): raise Bad(i, "the last byte of an empty string")
            p.val[i.id] = Ptr(("buf", S), len(T[S]) - 1)
        elif name == "pop_back":
            if not self.buf(p, i, S): raise Bad(i, "the last byte of an empty string is removed")
            T[S].pop()
        elif name == "clear": T[S] = []
        elif name == "resize":
            s = self.buf(p, i, S)
            if not isinstance(A[1], int): raise Broken("a string of unknown length")
            T[S] = s[:A[1]] + [A[2] if len(A) > 2 else 0] * (A[1] - len(s))
        elif name == "swap": T[S], T[A[1]] = self.buf(p, i, A[1]), self.buf(p, i, S)
        else: raise Broken("%s: string::%s is not modelled (%s)" % (self.f.q, name, self.f.loc(i)))
FULL = (1 << 64) - 1

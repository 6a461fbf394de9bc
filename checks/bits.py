"""Which bits of an integer argument every byte written ends up with, on every path: integers are either known constants or
(x >> s | o) & a of one argument x, about which an interval is known on every path; loops whose trip count is known are
followed round by round."""
from lib import *
FULL = (1 << 64) - 1
WID = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}

class S:      # ((x >> s) | o) & a, then *m + c
    __slots__ = ("s", "o", "a", "m", "c")
    def __init__(self, s=0, o=0, a=FULL, m=1, c=0): self.s = s; self.o = o; self.a = a; self.m = m; self.c = c
    def plain(self): return self.m == 1 and self.c == 0
    def key(self): return (self.s, self.o, self.a, self.m, self.c)
    def __repr__(self): return "S%r" % (self.key(),)

class P:      # pointer: object + offset
    __slots__ = ("b", "k")
    def __init__(self, b, k): self.b = b; self.k = k
    def __repr__(self): return "P(%s,%s)" % (self.b, self.k)

class BPath:
    def __init__(self): self.val = {}; self.mem = {}; self.lo = 0; self.hi = FULL; self.ev = []
    def copy(self):
        p = BPath(); p.val = dict(self.val); p.mem = dict(self.mem); p.lo = self.lo; p.hi = self.hi; p.ev = list(self.ev); return p

class Bits:
    """xarg: number of the argument that is the integer; on_call(p, i, name, args) -> value or None; on_ret(p, i, value)"""
    MAX = 3000
    def __init__(self, f, xarg, width=64, on_call=None, on_ret=None):
        self.f = f; self.x = xarg; self.w = width; self.on_call = on_call; self.on_ret = on_ret
    def op(self, p, o):
        if isinstance(o, bool): return int(o)
        if isinstance(o, int): return o
        if o in ("null", "zero"): return 0
        if isinstance(o, str) and o.startswith("%"):
            n = int(o[1:])
            if n < len(self.f.args):
                if n == self.x: return S()
                return P("arg%d" % n, 0) if self.f.args[n][1] == "ptr" else ("arg", n)
            return p.val.get(n)
        if isinstance(o, str) and o.startswith("@"): return P(o, 0)
        if isinstance(o, dict) and "base" in o: return self.gep(p, o)
        return None
    def gep(self, p, d):
        b = self.op(p, d["base"])
        if not isinstance(b, P): return None
        k = d["off"] if isinstance(b.k, int) else None
        out = b.k
        if isinstance(out, int): out = out + d["off"]
        elif d["off"]: out = self.plus(out, d["off"])
        for v, s in d.get("var", []):
            e = self.op(p, v)
            if isinstance(e, int):
                e = e - (1 << 64) if e >= 1 << 63 else e
                out = out + s * e if isinstance(out, int) else self.plus(out, s * e)
            elif isinstance(e, tuple) and e[0] in ("+", "arg") and isinstance(out, int):
                e = e if e[0] == "+" else ("+", e, 1, 0)
                out = ("+", e[1], e[2] * s, e[3] * s + out)
            elif isinstance(e, S) and isinstance(out, int): out = S(e.s, e.o, e.a, e.m * s, e.c * s + out)
            elif isinstance(out, int): out = ("+", e if e is not None else v, s, out)
            else: return None
        return P(b.b, out)
    def plus(self, e, k):
        if isinstance(e, S): return S(e.s, e.o, e.a, e.m, e.c + k)
        if isinstance(e, tuple) and e[0] == "+": return ("+", e[1], e[2], e[3] + k)
        if isinstance(e, tuple) and e[0] == "arg": return ("+", e, 1, k)
        return None
    def alu(self, op, a, b, w):
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            a &= m; b &= m
            if op == "add": return (a + b) & m
            if op == "sub": return (a - b) & m
            if op == "mul": return a * b & m
            if op == "or": return a | b
            if op == "and": return a & b
            if op == "xor": return a ^ b
            if op == "shl": return a << b & m if b < w else 0
            if op == "lshr": return a >> b if b < w else 0
            if op == "ashr": return ((a - (1 << w) if a >> (w - 1) else a) >> min(b, w - 1)) & m
            if op in ("udiv",) and b: return a // b
            if op in ("urem",) and b: return a % b
            return None
        if op in ("add", "sub") and isinstance(a, tuple) and a[0] in ("+", "arg") and isinstance(b, int):
            if b >> (w - 1): b -= 1 << w
            return self.plus(a, b if op == "add" else -b)
        if op == "add" and isinstance(b, tuple) and b[0] in ("+", "arg") and isinstance(a, int): return self.alu(op, b, a, w)
        if isinstance(b, S) and isinstance(a, int) and op in ("or", "and", "add", "mul"): a, b = b, a
        if isinstance(a, S) and isinstance(b, int):
            if op in ("urem", "udiv") and b > 0 and b & (b - 1) == 0:
                return self.alu("and" if op == "urem" else "lshr", a, b - 1 if op == "urem" else b.bit_length() - 1, w)
            if op == "add": return S(a.s, a.o, a.a, a.m, a.c + (b - (1 << w) if b >= 1 << (w - 1) else b))
            if op == "sub": return S(a.s, a.o, a.a, a.m, a.c - b)
            if op == "mul": return S(a.s, a.o, a.a, a.m * b, a.c * b)
            if op == "shl" and b < 32: return S(a.s, a.o, a.a, a.m << b, a.c << b)
            if op == "or" and a.m > 1 and a.c == 0 and a.m & (a.m - 1) == 0 and 0 <= b < a.m: return S(a.s, a.o, a.a, a.m, b)
            if not a.plain(): return None
            b &= m
            if op == "or": return S(a.s, (a.o & a.a) | b, a.a | b)
            if op == "and": return S(a.s, a.o, a.a & b)
            if op == "lshr":
                return S(a.s + b, a.o >> b, (a.a & m) >> b)
        return None
    def run(self):
        st = [(0, None, BPath(), 0)]; n = 0
        while st:
            b, prev, p, depth = st.pop(); n += 1
            if n > self.MAX: raise Broken("%s has too many paths" % self.f.q)
            news = {}
            for i in self.f.blocks[b]:
                if i.op == "phi":
                    o = [o for pb, o in i.d["inc"] if pb == prev]
                    news[i.id] = self.op(p, o[0]) if o else None
            p.val.update(news)
            for i in self.f.blocks[b]:
                if i.op != "phi": self.instr(p, i)
            t = self.f.blocks[b][-1]; succ = self.f.succ[b]
            if t.op == "ret":
                if self.on_ret: self.on_ret(p, t, self.op(p, t.ops[0]) if t.ops else None)
            elif t.op == "br" and t.ops:
                for k, s in enumerate(succ):
                    q = p.copy()
                    if self.assume(q, t.ops[0], k == 0): st.append((s, b, q, depth + 1))
            elif t.op == "invoke": st.append((succ[0], b, p, depth + 1))
            elif t.op == "switch":
                x = self.op(p, t.ops[0])
                if isinstance(x, int):
                    d = dict((c & FULL, s) for c, s in t.d["cases"]); st.append((d.get(x & FULL, t.d["def"]), b, p, depth + 1))
                else:
                    for s in succ: st.append((s, b, p.copy(), depth + 1))
            else:
                for s in succ: st.append((s, b, p.copy(), depth + 1))
        return self
    def assume(self, p, o, t):
        v = self.op(p, o)
        if isinstance(v, int): return bool(v) == t
        i = self.f.val(o)
        if i is None: return True
        if isinstance(v, tuple) and v and v[0] == "cmp": _, pred, a, b = v
        elif i.op == "xor" and i.ty == "i1": return self.assume(p, i.ops[0], not t)
        else: return True
        if not t: pred = {"ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "eq": "ne", "ne": "eq"}.get(pred, "?")
        if isinstance(a, int): a, b, pred = b, a, {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(pred, pred)
        if not isinstance(a, S) or not a.plain() or a.o or not isinstance(b, int): return True
        if (a.a & (FULL >> a.s)) != FULL >> a.s:        # masked: only emptiness of the bits above matters
            return True
        c = b << a.s
        if pred == "ult": p.hi = min(p.hi, c - 1)
        elif pred == "ule": p.hi = min(p.hi, ((b + 1) << a.s) - 1)
        elif pred == "uge": p.lo = max(p.lo, c)
        elif pred == "ugt": p.lo = max(p.lo, (b + 1) << a.s)
        elif pred == "eq": p.lo = max(p.lo, c); p.hi = min(p.hi, ((b + 1) << a.s) - 1)
        elif pred == "ne" and b == 0: p.lo = max(p.lo, 1 << a.s)
        return p.lo <= p.hi
    def instr(self, p, i):
        op = i.op; w = WID.get(i.ty, 64)
        if op in ("add", "sub", "mul", "or", "and", "xor", "shl", "lshr", "ashr", "udiv", "urem"):
            p.val[i.id] = self.alu(op, self.op(p, i.ops[0]), self.op(p, i.ops[1]), w)
        elif op == "getelementptr": p.val[i.id] = self.gep(p, i.d)
        elif op in ("zext", "freeze", "bitcast"): p.val[i.id] = self.op(p, i.ops[0])
        elif op == "sext":
            v = self.op(p, i.ops[0])
            if isinstance(v, int):
                j = self.f.val(i.ops[0]); sw = WID.get(j.ty if j is not None else "i32", 32)
                if v >> (sw - 1) & 1: v = (v | (FULL << sw)) & ((1 << w) - 1)
            p.val[i.id] = v
        elif op == "trunc":
            v = self.op(p, i.ops[0]); m = (1 << w) - 1
            p.val[i.id] = v & m if isinstance(v, int) else S(v.s, v.o, v.a & m) if isinstance(v, S) and v.plain() else v if isinstance(v, S) else None
        elif op == "icmp":
            a, b = self.op(p, i.ops[0]), self.op(p, i.ops[1]); pr = i.d["pred"]
            if isinstance(a, int) and isinstance(b, int):
                x = self.f.val(i.ops[0]) or self.f.val(i.ops[1]); cw = WID.get(x.ty if x is not None else "i32", 64)
                M = (1 << cw) - 1; a &= M; b &= M
                sg = lambda v: v - (1 << cw) if v >> (cw - 1) else v
                if pr[0] == "s" : a, b = sg(a), sg(b)
                p.val[i.id] = int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pr if pr in ("eq", "ne") else pr[1:]])
            elif isinstance(a, P) and isinstance(b, P) and a.b == b.b and isinstance(a.k, int) and isinstance(b.k, int) and pr in ("eq", "ne"):
                p.val[i.id] = int((a.k == b.k) == (pr == "eq"))
            else: p.val[i.id] = ("cmp", pr, a, b)
        elif op == "select":
            c = self.op(p, i.ops[0])
            p.val[i.id] = self.op(p, i.ops[1] if c else i.ops[2]) if isinstance(c, int) else None
        elif op == "load":
            a = self.op(p, i.ops[0])
            p.val[i.id] = None
            if isinstance(a, P):
                if isinstance(a.k, int):
                    v = p.mem.get((a.b, a.k))
                    if v is None and i.ty == "ptr": v = P(("*", a.b, a.k), 0)
                    if v is None and a.b[:1] == "@": v = ("tab", a.b, a.k)
                    p.val[i.id] = v
                elif isinstance(a.k, S): p.val[i.id] = ("tab", a.b, a.k.key())
        elif op == "store":
            a = self.op(p, i.ops[1]); v = self.op(p, i.ops[0])
            if isinstance(a, P):
                if isinstance(a.k, (int, tuple)): p.mem[(a.b, a.k)] = v
                p.ev.append(("store", a, v, i))
        elif op in ("call", "invoke"):
            c = callee_of(i) or ""
            if c.startswith("llvm.expect"): p.val[i.id] = self.op(p, i.ops[0]); return
            if c.startswith("llvm."): return
            p.val[i.id] = self.on_call(p, i, c, [self.op(p, o) for o in i.ops]) if self.on_call else None

def table(g):
    """the bytes of a constant global"""
    def go(n):
        if isinstance(n, dict) and "strhex" in n: return bytes.fromhex(n["strhex"])
        if isinstance(n, dict) and "agg" in n:
            r = [go(x) for x in n["agg"]]
            return None if any(x is None for x in r) else b"".join(r)
        if isinstance(n, int): return bytes([n & 255])
        return None
    return go(g.get("init")) if g.get("const") else None

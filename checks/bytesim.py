"""Which byte of which input every byte of an object holds, on every path of a loop-free function: memory is tracked byte by byte,
integers as tuples of bytes. Nothing is executed: a byte is a constant, a named input byte, or an expression's byte."""
from lib import *
W = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8}

class Path:
    def __init__(self): self.mem = {}; self.val = {}; self.facts = []; self.events = []
    def copy(self):
        p = Path(); p.mem = dict(self.mem); p.val = dict(self.val); p.facts = list(self.facts); p.events = list(self.events); return p

class Sim:
    """on_call(path, i, name) -> result (tuple of bytes), None (unknown result) ; on_ret(path, i, result, resultoperand)"""
    MAX = 4000
    def __init__(self, f, on_call=None, on_ret=None, on_resume=None, stop=None):
        self.f = f; self.v = Values(f); self.on_call = on_call; self.on_ret = on_ret; self.on_resume = on_resume; self.stop = stop
        self.paths = 0
        if f.loops() and False: raise Broken("%s has loops" % f.q)
    def addr(self, p, o):
        """(object, offset)"""
        e = self.v.op(o); ats = [a for a in e if a != ONE]
        # a pointer loaded or passed: substitute its value
        if len(ats) == 1 and e[ats[0]] == 1:
            b = p.val.get(ats[0])
            if isinstance(b, tuple) and b and b[0] == "ptr": return b[1], b[2] + int(cval(e))
            return ats[0], int(cval(e))
        return None, None
    def byte(self, p, obj, k): return p.mem.get((obj, k), ("in", obj, k))
    def bytes_of(self, p, o, ty):
        w = W.get(ty, 0)
        if isinstance(o, (int, bool)): return tuple(("k", (int(o) >> 8 * k) & 255) for k in range(w))
        if o in ("null", "zero"): return tuple(("k", 0) for k in range(w))
        if isinstance(o, str) and o.startswith("%"):
            n = int(o[1:])
            if n in p.val: return p.val[n]
            if n < len(self.f.args): return tuple(("v", "arg%d" % n, k) for k in range(w)) if ty != "ptr" else ("ptr", "arg%d" % n, 0)
        if ty == "ptr":
            a, k = self.addr(p, o)
            if a is not None: return ("ptr", a, k)
        return tuple(("u", str(o), k) for k in range(w))
    def opty(self, o, default="i64"):
        if isinstance(o, str) and o.startswith("%"):
            n = int(o[1:])
            if n < len(self.f.args): return self.f.args[n][1]
            i = self.f.ins.get(n)
            if i is not None: return i.ty
        return default
    def run(self):
        st = [(0, None, Path(), 0)]
        while st:
            b, prev, p, depth = st.pop()
            self.paths += 1
            if self.paths > self.MAX or depth > 400: raise Broken("%s has too many paths" % self.f.q)
            phis = [(i, [o for pb, o in i.d["inc"] if pb == prev]) for i in self.f.blocks[b] if i.op == "phi"]
            news = {i.id: self.bytes_of(p, o[0], i.ty) if o else None for i, o in phis}
            p.val.update({k: x for k, x in news.items() if x is not None})
            for i, o in phis:
                if o and i.ty == 'i1': p.val[('al', i.id)] = self.root(p, o[0])
            dead = False
            for i in self.f.blocks[b]:
                if i.op == "phi": continue
                if self.stop and self.stop(p, i): dead = True; break
                self.instr(p, i)
            if dead: continue
            t = self.f.blocks[b][-1]
            succ = self.f.succ[b]
            if t.op == "ret":
                if self.on_ret: self.on_ret(p, t, self.bytes_of(p, t.ops[0], self.opty(t.ops[0], "i32")) if t.ops else None)
                continue
            if t.op == "resume":
                if self.on_resume: self.on_resume(p, t)
                continue
            if t.op == "br" and t.ops:
                for k, s in enumerate(succ):
                    q = p.copy()
                    if self.assume(q, t.ops[0], k == 0): st.append((s, b, q, depth + 1))
            elif t.op == "switch":
                x = t.ops[0]; bs = self.bytes_of(p, x, self.opty(x)); w = len(bs)
                cs = t.d["cases"]
                for c, s in cs:
                    q = p.copy()
                    if self.fact(q, bs, True, tuple(("k", (c >> 8 * k) & 255) for k in range(w))): st.append((s, b, q, depth + 1))
                q = p.copy(); ok = all(self.fact(q, bs, False, tuple(("k", (c >> 8 * k) & 255) for k in range(w))) for c, _ in cs)
                if ok: st.append((t.d["def"], b, q, depth + 1))
            else:
                for s in succ: st.append((s, b, p.copy(), depth + 1))
        return self
    def strip(self, a, b):
        """drop the bytes that are equal constants on both sides"""
        r = [(x, y) for x, y in zip(a, b) if x != y]
        if any(x[0] == "k" and y[0] == "k" for x, y in r): return None
        return tuple(sorted((tuple(sorted(q, key=lambda x: (x[0] == "k", repr(x)))) for q in r), key=repr))
    def fact(self, p, a, equal, b):
        d = self.strip(a, b)
        if d is None: return not equal
        if not d: return equal
        for e, f2 in p.facts:
            if f2 == d and e != equal: return False
            if e and equal:     # the same bytes equal to other constants
                m1 = dict(f2)
                if any(x in m1 and m1[x] != y and y[0] == "k" and m1[x][0] == "k" for x, y in d): return False
            if e and not equal and d and all(x in dict(f2) and dict(f2)[x] == y for x, y in d): return False
        p.facts.append((equal, d))
        return True
    def root(self, p, o):
        """the condition a boolean phi stands for on this path"""
        while isinstance(o, str) and o.startswith('%') and ('al', int(o[1:])) in p.val: o = p.val[('al', int(o[1:]))]
        return o
    def assume(self, p, o, truth):
        o = self.root(p, o)
        if isinstance(o, (int, bool)): return bool(o) == truth
        i = self.f.val(o)
        if i is None: return True
        if i.op == "icmp" and i.d["pred"] in ("eq", "ne"):
            eq = (i.d["pred"] == "eq") == truth
            ty = self.opty(i.ops[0])
            a, b = self.bytes_of(p, i.ops[0], ty), self.bytes_of(p, i.ops[1], ty)
            if a and b and ("ptr" in (a[0], b[0])):
                q, z = (a, b) if a[0] == "ptr" else (b, a)
                # a place within an object is never null; nor is the same place another one
                if q[1] is not None and (q[2] > 0 or not str(q[1]).startswith('arg')) and z[0] != "ptr" and all(x == ("k", 0) for x in z): return not eq
                return True
            x = self.f.val(i.ops[0])
            while x is not None and x.op in ("zext", "freeze"): x = self.f.val(x.ops[0])
            if x is not None and x.ty == "i1" and isinstance(i.ops[1], int) and x.op in ("icmp", "and", "or", "xor", "phi", "select"):
                return self.assume(p, "%%%d" % x.id, eq == bool(i.ops[1]))
            return self.fact(p, a, eq, b)
        if i.op == "icmp": return self.fact(p, (("cmp", i.d["pred"], self.bytes_of(p, i.ops[0], self.opty(i.ops[0])), self.bytes_of(p, i.ops[1], self.opty(i.ops[0]))),), truth, (("k", 1),))
        if i.op == "xor" and i.ty == "i1" and i.ops[1] in (1, -1, True): return self.assume(p, i.ops[0], not truth)
        if i.op == "select" and i.ty == "i1":
            c, a, b = i.ops
            if isinstance(b, (int, bool)) and bool(b) != truth: return self.assume(p, c, True) and self.assume(p, a, truth)
            if isinstance(a, (int, bool)) and bool(a) != truth: return self.assume(p, c, False) and self.assume(p, b, truth)
            return True
        if i.op == "and" and i.ty == "i1" and truth: return self.assume(p, i.ops[0], True) and self.assume(p, i.ops[1], True)
        if i.op == "or" and i.ty == "i1" and not truth: return self.assume(p, i.ops[0], False) and self.assume(p, i.ops[1], False)
        if i.op in ("zext", "freeze", "trunc"): return self.assume(p, i.ops[0], truth)
        b = p.val.get(i.id)
        if b is not None: return self.fact(p, b, truth, (("k", 1),) if len(b) == 1 else b)
        return True
    def known(self, p, bs):
        """the constant these bytes are known to be, or None"""
        out = []
        for x in bs:
            if x[0] == "k": out.append(x[1]); continue
            h = [y[1] for e, d in p.facts if e for z, y in d if z == x and y[0] == "k"]
            if not h: return None
            out.append(h[0])
        return sum(b << 8 * k for k, b in enumerate(out))
    def store(self, p, o, bs):
        a, k = self.addr(p, o)
        if a is None: return
        if bs and bs[0] == "ptr":
            p.mem[(a, k)] = ("pp", bs); return
        for j, x in enumerate(bs): p.mem[(a, k + j)] = x
    def instr(self, p, i):
        op = i.op; f = self.f
        if op == "load" and i.ty in W:
            a, k = self.addr(p, i.ops[0])
            if a is None: return
            if i.ty == "ptr":
                m = p.mem.get((a, k))
                p.val[i.id] = m[1] if m is not None and m[0] == "pp" else ("ptr", ("*", a, k), 0)
            else: p.val[i.id] = tuple(self.byte(p, a, k + j) for j in range(W[i.ty]))
        elif op == "store":
            if i.ops[0] == "undef": return
            ty = self.opty(i.ops[0], i.d.get("vty") or i.d.get("sty") or "?")
            if isinstance(i.ops[0], (int, bool)) or ty == "?": ty = i.d.get("vty", i.d.get("sty"))
            if ty is None: raise Broken("width of a store is not known")
            self.store(p, i.ops[1], self.bytes_of(p, i.ops[0], ty))
        elif op == "zext":
            b = self.bytes_of(p, i.ops[0], self.opty(i.ops[0])); p.val[i.id] = b + tuple(("k", 0) for _ in range(W.get(i.ty, 0) - len(b)))
        elif op == "trunc": p.val[i.id] = self.bytes_of(p, i.ops[0], self.opty(i.ops[0]))[:W.get(i.ty, 0)]
        elif op in ("freeze", "bitcast"): p.val[i.id] = self.bytes_of(p, i.ops[0], self.opty(i.ops[0]))
        elif op in ("shl", "lshr") and isinstance(i.ops[1], int) and i.ops[1] % 8 == 0 and i.ty in W:
            b = self.bytes_of(p, i.ops[0], i.ty); s = i.ops[1] // 8; z = (("k", 0),) * s
            p.val[i.id] = (z + b)[:len(b)] if op == "shl" else b[s:] + z
        elif op == "or" and i.ty in W and i.ty != "i1":
            a, b = self.bytes_of(p, i.ops[0], i.ty), self.bytes_of(p, i.ops[1], i.ty)
            p.val[i.id] = tuple(y if x == ("k", 0) else x if y == ("k", 0) else ("or", x, y) for x, y in zip(a, b))
        elif op == "and" and i.ty in W and isinstance(i.ops[1], int):
            a = self.bytes_of(p, i.ops[0], i.ty)
            p.val[i.id] = tuple(x if (i.ops[1] >> 8 * k) & 255 == 255 else ("k", 0) if (i.ops[1] >> 8 * k) & 255 == 0 else ("and", x, (i.ops[1] >> 8 * k) & 255) for k, x in enumerate(a))
        elif op in ("call", "invoke"):
            c = callee_of(i) or ""
            if c.startswith("llvm."):
                n = c.split(".")[1]
                if n in ("memcpy", "memmove", "memset") and isinstance(i.ops[2], int):
                    if n == "memset":
                        x = self.bytes_of(p, i.ops[1], "i8")[0]; self.store(p, i.ops[0], (x,) * i.ops[2])
                    else:
                        a, k = self.addr(p, i.ops[1])
                        if a is not None:
                            src = [p.mem.get((a, k + j)) for j in range(i.ops[2])]
                            d, dk = self.addr(p, i.ops[0])
                            for j in range(i.ops[2]): p.mem[(d, dk + j)] = src[j] if src[j] is not None else ("in", a, k + j)
                    return
                if n == "bswap": p.val[i.id] = self.bytes_of(p, i.ops[0], i.ty)[::-1]; return
                if n == "expect": p.val[i.id] = self.bytes_of(p, i.ops[0], i.ty); return
                if n.startswith("fsh") and i.ops[0] == i.ops[1] and i.ops[2] == 8 and i.ty == "i16":
                    p.val[i.id] = self.bytes_of(p, i.ops[0], i.ty)[::-1]; return
                return
            if "__bswap_16" in c: c = "htons"
            if "__bswap_32" in c: c = "htonl"
            if c in ("htons", "ntohs"): p.val[i.id] = self.bytes_of(p, i.ops[0], "i16")[::-1]; return
            if c in ("htonl", "ntohl"): p.val[i.id] = self.bytes_of(p, i.ops[0], "i32")[::-1]; return
            r = self.on_call(p, i, c) if self.on_call else None
            if r is not None: p.val[i.id] = r
            elif i.ty in W and i.ty != "ptr": p.val[i.id] = tuple(("v", i.id, k) for k in range(W[i.ty]))

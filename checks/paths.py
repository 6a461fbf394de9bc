"""Facts along the paths of one function: which conditions hold and what has happened, for sets of paths that agree on them."""
from lib import *
import ir

LIMIT = 4000

class Paths:
    """step(facts, i) changes the facts (a dict) as an instruction is passed, and may give back a list of alternatives or None for a path that ends there.
    Facts under the number of an instruction are about its value: zero or not. Others are the caller's own."""
    def __init__(self, f, step=None, init=None, keep=None):
        """keep: only remember facts about these values"""
        self.f = f; self.step = step or (lambda s, i: None)
        self.used = self.conditions(); self.IN = {}
        if keep is not None: self.used &= keep
        self.run(dict(init or {}))

    def conditions(self):
        """the values conditions depend on: facts about others need not be kept"""
        f = self.f; seen = set(); work = []
        for i in f.all_instrs():
            if i.op in ("br", "switch", "select") and i.ops: work.append(i.ops[0])
        while work:
            o = work.pop()
            if not (isinstance(o, str) and o.startswith("%")): continue
            i = f.val(o)
            if i is None or i.id in seen: continue
            seen.add(i.id)
            if i.op == "phi": work += [x for _, x in i.d["inc"]]
            elif i.op in ("icmp", "xor", "and", "or", "zext", "sext", "trunc", "freeze", "select"): work += list(i.ops)
        return seen

    def value(self, s, o, d=0):
        """True (not zero), False (zero) or None"""
        if isinstance(o, dict): return None
        if o in ("true",): return True
        if o in ("false", "null", "zeroinitializer"): return False
        if re.match(r"^-?\d+$", str(o)): return int(o) != 0
        i = self.f.val(o) if isinstance(o, str) and o.startswith("%") else None
        if i is None: return s.get(o) if isinstance(o, str) else None
        if i.id in s: return s[i.id]
        if d > 12: return None
        if i.op == "phi": return self.value(s, s[("=", i.id)], d + 1) if ("=", i.id) in s else None
        V = lambda k: self.value(s, i.ops[k], d + 1)
        if i.op in ("zext", "sext", "freeze", "trunc", "bitcast"): return V(0)
        if i.op == "icmp" and i.d["pred"] in ("eq", "ne"):
            a, b = V(0), V(1)
            if a is None or b is None or (a and b and not self.boolean(i.ops[0]) and not self.boolean(i.ops[1])): return None
            return (a == b) == (i.d["pred"] == "eq")
        if i.op == "xor":
            if str(i.ops[1]) in ("true", "-1") or self.boolean(i): 
                a, b = V(0), V(1)
                return None if a is None or b is None else a != b
            return None
        if i.op == "and":
            a, b = V(0), V(1)
            if a is False or b is False: return False
            if str(i.ops[1]) == "1" and self.boolean(i.ops[0]): return a
            return True if a and b and self.boolean(i) else None
        if i.op == "or":
            a, b = V(0), V(1)
            return True if a or b else False if a is False and b is False else None
        if i.op == "select":
            c = V(0)
            if c is None:
                a, b = V(1), V(2)
                return a if a == b else None
            return V(1) if c else V(2)
        return None

    def boolean(self, o):
        i = self.f.val(o) if isinstance(o, str) and o.startswith("%") else o if not isinstance(o, (str, dict)) else None
        return i is not None and (i.ty == "i1" or i.op in ("zext",) and self.boolean(i.ops[0]))

    def assume(self, s, o, t):
        """facts with the condition taken into account, or None if it cannot be"""
        v = self.value(s, o)
        if v is not None: return s if v == t else None
        i = self.f.val(o) if isinstance(o, str) and o.startswith("%") else None
        if i is None:
            if isinstance(o, str) and o.startswith("%"): s = dict(s); s[o] = t
            return s
        s = dict(s)
        if i.id in self.used: s[i.id] = t
        a = lambda k, x: self.assume(s, i.ops[k], x)
        if i.op == "phi": return self.assume(s, s[("=", i.id)], t) if ("=", i.id) in s else s
        if i.op in ("zext", "sext", "freeze", "bitcast") or i.op == "trunc" and i.ty == "i1": return a(0, t)
        if i.op == "icmp" and i.d["pred"] in ("eq", "ne"):
            for x, y in ((0, 1), (1, 0)):
                v = self.value(s, i.ops[y])
                if v is False: return a(x, (i.d["pred"] == "ne") == t)
                if v is True and self.boolean(i.ops[x]): return a(x, (i.d["pred"] == "eq") == t)
        elif i.op == "xor" and self.value(s, i.ops[1]) is True and i.ty == "i1": return a(0, not t)
        elif i.op == "and" and t:
            s = a(0, True)
            return s if s is None else self.assume(s, i.ops[1], True)
        elif i.op == "and" and str(i.ops[1]) == "1" and not t and self.f.val(i.ops[0]) is not None and self.boolean(i.ops[0]): return a(0, False)
        elif i.op == "or" and not t:
            s = a(0, False)
            return s if s is None else self.assume(s, i.ops[1], False)
        elif i.op == "select":
            c = [k for k in (1, 2) if self.value(s, i.ops[k]) is (not t)]
            if len(c) == 1:
                s = a(0, c[0] == 2)
                return s if s is None else self.assume(s, i.ops[3 - c[0]], t)
        return s

    def edges(self, s, b):
        """(successor, facts) of a block's end"""
        f = self.f; i = f.blocks[b][-1]
        if i.op == "br" and i.ops and len(f.succ[b]) == 2:
            for k, t in ((0, True), (1, False)):
                n = self.assume(s, i.ops[0], t)
                if n is not None: yield f.succ[b][k], n, None
        elif i.op == "invoke":
            for x in f.succ[b]: yield x, s, x == i.d["unwind"]
        else:
            for x in set(f.succ[b]): yield x, s, None

    def enter(self, s, p, b):
        """facts about the values that come together at a block"""
        f = self.f; new = {}
        for i in f.blocks[b]:
            if i.op != "phi": break
            o = [x for q, x in i.d["inc"] if q == p]
            new[i.id] = self.value(s, o[0]) if o and i.id in self.used else None
            new[("=", i.id)] = self.base(o[0]) if o and i.id in self.used and new[i.id] is None else None
        if not new: return s
        s = dict(s)
        for k, v in new.items():
            if v is None: s.pop(k, None)
            else: s[k] = v
        return s

    def base(self, o):
        """the value a condition that is only passed on comes from"""
        for _ in range(8):
            i = self.f.val(o) if isinstance(o, str) and o.startswith("%") else None
            if i is None: return None
            if i.op in ("zext", "sext", "freeze", "trunc"): o = i.ops[0]
            else: return o if i.op != "phi" else None
        return None

    def through(self, s, b, visit=None):
        out = [s]
        for i in self.f.blocks[b]:
            if i.op == "phi": continue
            nxt = []
            for s in out:
                if visit is not None: visit(s, i)
                s = dict(s); s.pop(i.id, None)
                if i.id in self.used:
                    for k in [k for k, x in s.items() if isinstance(k, tuple) and k[0] == "=" and x == "%%%d" % i.id]: del s[k]
                r = self.step(s, i)
                if r is None: nxt.append(s)
                else: nxt += r
            out = nxt
        return out

    def run(self, init):
        work = [(0, frozenset(init.items()))]; self.IN = {0: {work[0][1]}}; n = 0
        while work:
            b, fs = work.pop(); n += 1
            if n > LIMIT * 10 or len(self.IN[b]) > LIMIT: raise ir.Broken("%s: too many paths" % self.f.q)
            for s in self.through(dict(fs), b):
                for x, t, unwinds in self.edges(s, b):
                    if unwinds is not None: t = dict(t); t["unwinding" if unwinds else "returned"] = self.f.blocks[b][-1].id
                    t = self.enter(t, b, x)
                    t = frozenset((k, v) for k, v in t.items() if k != "returned" and (not isinstance(k, int) or k in self.used))
                    if t not in self.IN.setdefault(x, set()): self.IN[x].add(t); work.append((x, t))

    def each(self, visit):
        """visit(facts, i) for every instruction and every set of facts it may be passed with"""
        for b in self.IN:
            for fs in list(self.IN[b]): self.through(dict(fs), b, visit)

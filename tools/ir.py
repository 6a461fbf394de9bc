"""Loads the JSON facts and offers the views the rules work on: functions with CFG, dominators, loops,
linear normal forms of SSA values, class layouts, and the whole-program call graph."""
import json, re, os, sys
from collections import defaultdict
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from build import build_facts, build_view, build_shadow, Broken, REPO
from poly import F, ONE, const, atom, add, sub, scale, is_const, cval, key, Poly
import viewdefs

def strip_templates(s):
    r, d, i = [], 0, 0
    while i < len(s):
        if d == 0 and s.startswith("operator", i):
            j = i + 8
            for op in ("<=>", "<<=", ">>=", "->*", "<<", ">>", "<=", ">=", "==", "!=", "->", "--", "-=", "<", ">", "=", "-", "!"):
                if s.startswith(op, j): j += len(op); break
            r.append(s[i:j]); i = j; continue
        c = s[i]
        if c == "<": d += 1
        elif c == ">": d -= 1
        elif d == 0: r.append(c)
        i += 1
    return "".join(r)

def demangled_qname(d):
    s = strip_templates(d)
    s = re.sub(r"\[abi:[^\]]*\]", "", s)
    depth = 0
    # parameter list starts at the first '(' not part of (anonymous namespace) or operator()
    i = 0
    while i < len(s):
        if s.startswith("(anonymous namespace)", i): i += 21; continue
        if s.startswith("operator()", i): i += 10; continue
        if s[i] == "(":
            return s[:i].split(" ")[-1] if " " in s[:i] and "operator" not in s[:i] else s[:i]
        i += 1
    return s

class Instr:
    __slots__ = ("id", "op", "ty", "ln", "f", "fn", "d", "blk", "idx", "ops", "_sk")
    def __init__(self, d, blk, idx):
        self.id = d["id"]; self.op = d["op"]; self.ty = d.get("ty"); self.ln = d.get("ln", 0); self.f = d.get("f")
        self.fn = d.get("fn", ""); self.d = d; self.blk = blk; self.idx = idx; self.ops = d.get("ops", [])
        self._sk = None
    def __repr__(self): return "%%%d=%s@B%d" % (self.id, self.op, self.blk)

class Fn:
    def __init__(self, d, unit, files):
        self.d = d; self.name = d["name"]; self.unit = unit; self.files = files
        self.demangled = d.get("demangled", "")
        self.scope = d.get("scope", ""); self.dname = d.get("dname")
        if self.dname is not None:
            self.q = strip_templates((self.scope + "::" if self.scope else "") + self.dname)
        else:
            self.q = demangled_qname(self.demangled)
        self.file = d.get("file", ""); self.line = d.get("line", 0)
        self.args = d["args"]; self.pt = d.get("pt")
        self.is_decl = "blocks" not in d
        self.blocks = []
        self.ins = {}
        if not self.is_decl:
            for bi, b in enumerate(d["blocks"]):
                L = [Instr(x, bi, k) for k, x in enumerate(b)]
                self.blocks.append(L)
                for x in L: self.ins[x.id] = x
            self._cfg()
        self._dom = None; self._loops = None
    def __repr__(self): return "<Fn %s>" % self.q
    def loc(self, i):
        if i is None: return "%s:%s" % (relpath(self.file), self.line)
        if i.f is not None and i.f < len(self.files): return "%s:%d" % (relpath(self.files[i.f]), i.ln)
        return "%s:%s" % (relpath(self.file), self.line)
    def _cfg(self):
        self.succ = []; self.pred = [[] for _ in self.blocks]
        for bi, b in enumerate(self.blocks):
            t = b[-1]; s = []
            if t.op == "br": s = list(t.d["succ"])
            elif t.op == "switch": s = [t.d["def"]] + [c[1] for c in t.d["cases"]]
            elif t.op == "invoke": s = [t.d["normal"], t.d["unwind"]]
            self.succ.append(s)
            for x in dict.fromkeys(s): self.pred[x].append(bi)
    def wto(self):
        """reverse postorder in which a loop's blocks precede everything after the loop"""
        L = self.loops()
        depth = lambda a, b: -sum(1 for body in L.values() if a in body and b not in body)     # loops left by the edge
        seen, order = {0}, []
        nxt = lambda n: iter(sorted(dict.fromkeys(self.succ[n]), key=lambda s: depth(n, s)))
        st = [(0, nxt(0))]
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, nxt(s))); break
            else:
                order.append(n); st.pop()
        return order[::-1]
    # -- dominators ---------------------------------------------------------
    def rpo(self):
        seen, order = set(), []
        st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                order.append(n); st.pop()
        return order[::-1]
    def dom(self):
        if self._dom is None:
            o = self.rpo(); num = {b: i for i, b in enumerate(o)}
            idom = {0: 0}; ch = True
            while ch:
                ch = False
                for b in o[1:]:
                    new = None
                    for p in self.pred[b]:
                        if p in idom:
                            if new is None: new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while num[x] > num[y]: x = idom[x]
                                    while num[y] > num[x]: y = idom[y]
                                new = x
                    if idom.get(b) != new: idom[b] = new; ch = True
            self._dom = idom
        return self._dom
    def dominates(self, a, b):
        """block a dominates block b"""
        d = self.dom()
        while True:
            if a == b: return True
            if b == 0 or b not in d: return False
            b = d[b]
    def idominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.blk == b.blk: return a.idx < b.idx
        return self.dominates(a.blk, b.blk)
    def edge_dominates(self, p, s, b):
        """every path to b takes the edge p->s"""
        if list(self.succ[p]).count(s) != 1: return False
        if not self.dominates(s, b): return False
        return all(q == p or self.dominates(s, q) for q in self.pred[s])
    def loops(self):
        """header -> set of blocks"""
        if self._loops is None:
            L = {}
            for b in self.rpo():
                for s in self.succ[b]:
                    if self.dominates(s, b):
                        body = L.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x); st += self.pred[x]
            self._loops = L
        return self._loops
    def reach(self, start, avoid=lambda i: False, edge_ok=None):
        """instructions reachable from just after `start` (Instr or None = entry) without passing `avoid`"""
        out = []; seen = set()
        st = [(0, 0)] if start is None else [(start.blk, start.idx + 1)]
        while st:
            b, k = st.pop()
            blk = self.blocks[b]; stop = False
            while k < len(blk):
                i = blk[k]
                if avoid(i): stop = True; break
                out.append(i); k += 1
            if stop: continue
            for s in self.succ[b]:
                if edge_ok and not edge_ok(b, s): continue
                if s not in seen:
                    seen.add(s); st.append((s, 0))
        return out
    def all_instrs(self):
        for b in self.blocks:
            for i in b: yield i
    def exits(self):
        return [b[-1] for b in self.blocks if b[-1].op in ("ret", "resume")]
    # -- operands ------------------------------------------------------------
    def val(self, o):
        """Instr for an SSA operand, else None"""
        if isinstance(o, str) and o.startswith("%"): return self.ins.get(int(o[1:]))
        return None
    def is_arg(self, o):
        if isinstance(o, str) and o.startswith("%"):
            n = int(o[1:])
            return n if n < len(self.args) else None
        return None

def relpath(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + "/") else p

def callee_of(i):
    """name of a direct callee or None"""
    c = i.d.get("callee")
    if isinstance(c, str) and c.startswith("@"): return c[1:]
    return None

class Unit:
    """one canonical view (or one dumped translation unit)"""
    def __init__(self, d, files):
        self.name = d["unit"]; self.files = files
        self.fns = {}
        for f in d["functions"]:
            x = Fn(f, self.name, files)
            if x.name not in self.fns or self.fns[x.name].is_decl: self.fns[x.name] = x
        self.globals = {g["name"]: g for g in d["globals"]}
        self.records = d["records"]

class Program(Unit):
    """the whole program, functions deduplicated across units"""
    def __init__(self, facts):
        self.dir = facts
        text = open(os.path.join(facts, "whole.json")).read(); d = json.loads(text)
        # complete constructors and destructors that are nothing but another name for the base ones
        defined = {f["name"] for u in d["units"] for f in u["functions"] if f.get("blocks")}
        other = lambda n: re.sub(r"([CD])1E", r"\g<1>2E", n)
        known = lambda n: n not in defined and other(n) != n and other(n) in defined
        if any(known(n) for n in set(re.findall(r'"@?(_ZN[^"]*[CD]1E[^"]*)"', text))):
            text = re.sub(r'"(@?)(_ZN[^"]*[CD]1E[^"]*)"', lambda m: '"%s%s"' % (m[1], other(m[2])) if known(m[2]) else m[0], text)
            d = json.loads(text)
        self.meta = json.load(open(os.path.join(facts, "meta.json")))
        self.files = d["files"]
        self.fns = {}; self.globals = {}; self.records = []; self.units = [u["unit"] for u in d["units"]]
        for u in d["units"]:
            for f in u["functions"]:
                x = Fn(f, u["unit"], self.files)
                if x.name not in self.fns or self.fns[x.name].is_decl: self.fns[x.name] = x
            for g in u["globals"]:
                if g["name"] not in self.globals or self.globals[g["name"]]["decl"]: self.globals[g["name"]] = g
            self.records += u["records"]
        self.byq = defaultdict(list)
        for f in self.fns.values(): self.byq[f.q].append(f)
        self.rec = {}
        for r in self.records: self.rec.setdefault(r["q"], r)
        self._vt = None
        self._callers = None
    def need(self, *srcs):
        """the rules at hand are about these sources: no answer if one of them did not compile"""
        for f, e in self.meta.get("failed", []):
            if not srcs or any(s in f for s in srcs): raise Broken("%s does not compile for analysis: %s" % (f, e))
    def repo_fns(self):
        return [f for f in self.fns.values() if not f.is_decl and f.file.startswith(REPO + "/")]
    def defs(self, q):
        return [f for f in self.byq.get(q, []) if not f.is_decl]
    def record(self, q):
        r = [r for k, r in self.rec.items() if strip_templates(k) == q]
        return r[0] if r else None
    # -- virtual dispatch ------------------------------------------------------
    def vtables(self):
        """typeid -> {slot offset -> set(function names)}"""
        if self._vt is None:
            vt = defaultdict(lambda: defaultdict(set)); self.vt_classes = defaultdict(set)
            for g in self.globals.values():
                if "types" not in g or "init" not in g: continue
                flat = []
                def walk(x):
                    if isinstance(x, dict) and "agg" in x:
                        for y in x["agg"]: walk(y)
                    else: flat.append(x)
                walk(g["init"])
                for off, tid in g["types"]:
                    self.vt_classes[tid].add(g["name"])
                    k = off // 8
                    j = 0
                    while k + j < len(flat):
                        e = flat[k + j]
                        if isinstance(e, str) and e.startswith("@") and (e[1:] in self.fns):
                            vt[tid][8 * j].add(e[1:])
                        elif isinstance(e, str) and e.startswith("@__cxa_pure"): pass
                        else: break
                        j += 1
            self._vt = vt
        return self._vt

_PROG = None
def program():
    global _PROG
    if _PROG is None: _PROG = Program(build_facts())
    return _PROG

def view(name, roots, barriers=(), inlines=(), replaces=(), shadow=None):
    """shadow: sources compiled against shadow/'s headers instead of the whole program"""
    d = build_facts()
    v = json.load(open(build_view(d, name, viewdefs.spec(name, roots, barriers, inlines, replaces), build_shadow(d, shadow) if shadow else None)))
    u = Unit(v["units"][0], v["files"])
    u.roots = [f for f in u.fns.values() if not f.is_decl]
    u.byq = defaultdict(list)
    for f in u.roots: u.byq[f.q].append(f)
    return u

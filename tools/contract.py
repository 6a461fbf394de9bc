"""Modular contracts: one method at a time is analysed by the abstract interpreter under a precondition, with a
field-sensitive memory model, and what must hold at its calls and returns is checked."""
from lib import *
from absint import AbsInt, State, INT_BITS

def mvar(base, off): return ("m", base, int(off))

class Mem:
    """Memory model. A cell is (object, byte offset); the object is named by the one value its address is a constant
    distance from. Different names are different objects (assumption); a call may change every object its arguments
    reach through known cells, unless the rule says otherwise."""
    GRAN = 4
    def __init__(self, fn, init=None, on_call=None, on_ret=None, on_store=None, on_load=None, on_instr=None, keep=None,
                 const_load=None, pure_call=None, edge_hook=None, ps0=None, max_steps=20000, volatile=None, on_unwind=None, partition=False):
        self.fn = fn; self.on_call = on_call; self.on_ret = on_ret; self.on_store = on_store; self.on_load = on_load
        self.on_instr = on_instr; self.on_unwind = on_unwind
        self.keep = keep or (lambda st, i, base: False)
        self.volatile = volatile or (lambda var: False)      # cells other threads change
        self.user_init = init
        self.ai = AbsInt(fn, hook=self.hook, init=self.init, ps0=ps0, const_load=const_load, pure_call=pure_call,
                         edge_hook=edge_hook, max_steps=max_steps, partition=partition)
        self.v = self.ai.v
    # -- addresses -------------------------------------------------------------
    def loc(self, st, e):
        r = st.poly.reduce(e)
        hit = None
        for b in sorted(self.bases(st), key=str):
            d = st.poly.reduce(sub(e, atom(b)))
            if is_const(d):
                if hit is None: hit = mvar(b, cval(d))
                else:       # two names of one object: keep one
                    for x in self.cells(st, b): self.drop(st, x)
        if hit is not None: return hit
        a = [x for x in r if x != ONE]
        if len(a) == 1 and r[a[0]] == 1: return mvar(a[0], cval(r))
        return None
    def bases(self, st): return {x[1] for x in st.poly.atoms() if isinstance(x, tuple) and x[0] == "m"}
    def ptr(self, st, o): return self.loc(st, self.v.op(o))
    def cells(self, st, base):
        return [x for x in st.poly.atoms() if isinstance(x, tuple) and x[0] == "m" and x[1] == base]
    def drop(self, st, var):
        """the value of a cell changes: forget it and everything known through it"""
        for x in list(st.poly.atoms()):
            if isinstance(x, tuple) and x[0] == "m" and x[1] == var: self.drop(st, x)
        st.poly.forget([var])
    def set(self, st, var, e):
        for x in list(st.poly.atoms()):
            if isinstance(x, tuple) and x[0] == "m" and x[1] == var: self.drop(st, x)
        # overlapping cells
        st.assign(var, e)
    def havoc_object(self, st, base, seen=None):
        seen = seen if seen is not None else set()
        if base in seen: return
        seen.add(base)
        cells = self.cells(st, base)
        bases = {x[1] for x in st.poly.atoms() if isinstance(x, tuple) and x[0] == "m"}
        for c in cells:
            r = st.poly.reduce(atom(c))
            k = [x for x in r if x != ONE]
            if len(k) == 1 and r[k[0]] == 1:
                for b in list(bases):
                    if b == k[0] or st.poly.reduce(sub(atom(b), atom(k[0]))) == {}: self.havoc_object(st, b, seen)
            self.havoc_object(st, c, seen)
        for c in cells: self.drop(st, c)
    # -- interpretation ---------------------------------------------------------
    def init(self, st):
        if self.user_init: self.user_init(st)
    def hook(self, st, i):
        v = self.v; op = i.op
        if op == "alloca":
            st.poly.add_ne(v.lin(i.id))
        elif op == "load":
            if self.on_load and self.on_load(st, i) is True: pass
            else:
                l = self.ptr(st, i.ops[0])
                if l is not None and not self.volatile(l):
                    st.poly.add_eq(sub(atom(l), v.lin(i.id)), prefer=self.prefer(v.lin(i.id)))
        elif op == "store":
            if self.on_store and self.on_store(st, i) is True: pass
            else:
                l = self.ptr(st, i.ops[1])
                if l is not None and not self.volatile(l):
                    if i.ops[0] == "undef": self.drop(st, l)
                    else: self.set(st, l, v.op(i.ops[0]))
        elif op in ("atomicrmw", "cmpxchg"):
            if self.on_store and self.on_store(st, i) is True: pass
            else:
                l = self.ptr(st, i.ops[0])
                if l is not None and not self.volatile(l):
                    if op == "atomicrmw":
                        st.poly.add_eq(sub(atom(l), v.lin(i.id)), prefer=i.id)
                        k = i.d["rmw"]; x = v.op(i.ops[1])
                        if k == "add": self.set(st, l, add(atom(i.id), x))
                        elif k == "sub": self.set(st, l, sub(atom(i.id), x))
                        elif k == "xchg": self.set(st, l, x)
                        else: self.drop(st, l)
                    else: self.drop(st, l)
        elif op in ("call", "invoke"):
            self.call(st, i)
        if self.on_instr: self.on_instr(st, i)
        if op == "ret" and self.on_ret: self.on_ret(st, i, v.op(ret_op(i)) if i.ops else None)
        if op == "resume" and self.on_unwind: self.on_unwind(st, i)
    def prefer(self, e):
        a = [x for x in e if x != ONE]
        return a[0] if len(a) == 1 else None
    def call(self, st, i):
        c = callee_of(i) or ""
        if c.startswith("llvm."):
            n = c.split(".")[1]
            if n in ("memcpy", "memmove"):
                d, s, ln = self.ptr(st, i.ops[0]), self.ptr(st, i.ops[1]), self.v.op(i.ops[2])
                if self.on_call and self.on_call(st, i, c) is True: return
                if d is None: return
                if is_const(ln) and cval(ln) <= 512 and s is not None:
                    n = int(cval(ln))
                    for k in range(0, n, self.GRAN):
                        src = mvar(s[1], s[2] + k)
                        if src in st.poly.atoms() or k % 8 == 0: self.set(st, mvar(d[1], d[2] + k), atom(src))
                else:
                    for x in self.cells(st, d[1]): self.drop(st, x)
            elif n == "memset":
                if self.on_call and self.on_call(st, i, c) is True: return
                d, ln = self.ptr(st, i.ops[0]), self.v.op(i.ops[2])
                if d is None: return
                val = self.v.op(i.ops[1])
                if is_const(ln) and cval(ln) <= 512 and is_const(val) and cval(val) == 0:
                    for k in range(0, int(cval(ln)), self.GRAN):
                        self.set(st, mvar(d[1], d[2] + k), {})
                else:
                    for x in self.cells(st, d[1]): self.drop(st, x)
            elif self.on_call: self.on_call(st, i, c)
            return
        if self.on_call and self.on_call(st, i, c) is True: return
        self.call_effects(st, i)
    def call_effects(self, st, i):
        seen = set()
        for o in i.ops:
            l = self.ptr(st, o)
            if l is None: continue
            if self.keep(st, i, l[1]): continue
            self.havoc_object(st, l[1], seen)
    def run(self):
        self.ai.run(); return self

def arg(n): return "arg%d" % n
def cell(n, off): return mvar(arg(n), off)

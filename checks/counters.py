"""Effect of a method on an atomic counter: the sum of what its atomic operations add, per path."""
from lib import *
from contract import *

class Effect:
    """Ghost 'd:<cell>' is the total change of the counter so far; every other way of changing it is reported."""
    def __init__(self, u, f, cells, ob, on_call=None, on_ret=None, init=None, on_unwind=None):
        self.u = u; self.f = f; self.cells = cells; self.ob = ob
        self.user_call = on_call; self.user_ret = on_ret; self.user_init = init
        self.cas = {}
        self.mem = Mem(f, init=self.init, on_call=self.call, on_ret=self.ret, on_store=self.store, on_load=self.load,
                       on_instr=self.instr, edge_hook=self.edge, volatile=lambda v: v in cells, on_unwind=on_unwind)
    def g(self, c): return ("d", str(c))
    def delta(self, st, c): return atom(self.g(c))
    def init(self, st):
        for c in self.cells: st.assign(self.g(c), {})
        if self.user_init: self.user_init(st)
    def where(self, st, i, o):
        l = self.mem.ptr(st, o)
        return l if l in self.cells else None
    def load(self, st, i):
        if self.where(st, i, i.ops[0]) is not None:
            if st.checking: self.ob(i, i.d.get("ord") not in (None, ""), "the counter is read without atomicity")
            return True
    def store(self, st, i):
        ptr = i.ops[1] if i.op == "store" else i.ops[0]
        l = self.where(st, i, ptr)
        if l is None: return None
        g = self.g(l)
        if i.op == "store":
            if st.checking: self.ob(i, False, "the counter is overwritten: what other threads counted meanwhile is lost")
            st.havoc(g)
        elif i.op == "atomicrmw":
            k = i.d["rmw"]; x = st.lin(i.ops[1]); old = st.ai.v.lin(i.id)
            if k == "add": st.assign(g, add(atom(g), x))
            elif k == "sub": st.assign(g, sub(atom(g), x))
            elif k == "xchg": st.assign(g, add(atom(g), sub(x, old)))
            else: st.havoc(g)
        else:
            if st.get("cas"): st.havoc(g)
            st.set("cas", i.id); st.set("casg", g)
            st.assign("casd", sub(st.lin(i.ops[2]), st.lin(i.ops[1])))
        return True
    def instr(self, st, i):
        if i.op == "extractvalue" and st.get("cas"):
            src = self.f.val(i.ops[0])
            if src is not None and src.id == st.get("cas"):
                if i.d["idx"] == [1]: st.set("casf", i.id)
    def edge(self, st, b, s, k):
        if st.get("cas") and st.get("casf"):
            e = st.ai.v.lin(st.get("casf"))
            if st.eq(add(e, const(-1))):
                st.assign(st.get("casg"), add(atom(st.get("casg")), atom("casd")))
            elif not st.eq(e): return
            for x in ("cas", "casf", "casg"): st.set(x, None)
    def call(self, st, i, c):
        if self.user_call:
            return self.user_call(st, i, c)
    def ret(self, st, i, r):
        if st.get("cas"):
            if st.checking: self.ob(i, False, "whether the exchange took place is not examined")
        if self.user_ret: self.user_ret(st, i, r)
    def run(self): self.mem.run(); return self

def counter_cell(u, f):
    """the (this-relative) cell an accessor returns"""
    t = this_arg(f); v = Values(f)
    e = v.op(ret_op(final_ret(f)[0]))
    a = [x for x in e if x != ONE]
    if len(a) != 1 or a[0] not in f.ins or f.ins[a[0]].op != "load": raise Broken("%s does not return one counter" % f.q)
    k = ptr_arg_off(v.op(f.ins[a[0]].ops[0]), t)
    if k is None: raise Broken("%s does not return a field" % f.q)
    return k

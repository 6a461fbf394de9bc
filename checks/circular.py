"""Shared model of the circular buffer: its roles are read off its public accessors."""
from lib import *
from contract import *

ROOTS = [r"lightstep::CircularBuffer::.*", r"lightstep::CircularBufferRange::.*", r"lightstep::AtomicUniquePtr::.*", r"verif::inst_(consume|foreach|convert)"]
BARRIER = [r"verif::.*take", r"std::default_delete::.*"]

class Ring:
    def __init__(self):
        self.u = u = ir.view("circular", ROOTS, barriers=[r"verif::Elem::.*"])
        want = lambda f: "verif::Elem" in f.scope and "AtomicUniquePtr<verif" not in f.scope.split("::CircularBuffer")[0]
        m = lambda name: one(u, "lightstep::CircularBuffer::" + name, lambda f: f.scope == "lightstep::CircularBuffer<verif::Elem>")
        self.m = m
        self.prod = m("production_count"); self.cons = m("consumption_count"); self.max = m("max_size")
        self.head = self._loc(self.prod); self.tail = self._loc(self.cons)
        if self.head == self.tail: raise Broken("production_count and consumption_count read the same location")
        methods = [f for f in u.roots if f.scope.startswith("lightstep::CircularBuffer<verif::Elem>") and not is_special(f)]
        mut = mutated_offsets(methods)
        self.const_load = lambda fn, i, e: (ptr_arg_off(e, this_arg(fn)) is not None and fn.scope.startswith("lightstep::CircularBuffer<") and
                                            ptr_arg_off(e, this_arg(fn)) not in mut)
        # capacity: max_size() == load(this+cap) + k
        v = Values(self.max)
        r = final_ret(self.max)[0]
        e = v.op(ret_op(r))
        loads = [a for a in e if a != ONE]
        if len(loads) != 1 or e[loads[0]] != 1: raise Broken("max_size() is not an affine function of one field")
        li = self.max.ins[loads[0]]
        self.cap = ptr_arg_off(v.op(li.ops[0])); self.capk = cval(e)
        if self.cap is None: raise Broken("max_size() does not read a field of the buffer")
        self._slots()
    def _slots(self):
        """the slot array and the modulus, read off Add's claim: address = array + 8 * (x mod (capacity field + k))"""
        f = self.m("Add"); v = Values(f, self.const_load)
        self.data = self.modk = None
        for i in f.all_instrs():
            if i.op != "cmpxchg": continue
            e = v.op(i.ops[0])
            ix = [a for a in e if a != ONE and e[a] == 8]; bs = [a for a in e if a != ONE and e[a] == 1]
            if len(ix) != 1 or len(bs) != 1 or len(e) != 2: continue
            b = f.ins.get(bs[0]); x = f.ins.get(ix[0])
            if b is None or x is None or b.op != "load" or x.op not in ("urem", "srem"): continue
            m = v.op(x.ops[1]); ca = [a for a in m if a != ONE]
            if len(ca) != 1 or m[ca[0]] != 1 or ca[0] not in f.ins or f.ins[ca[0]].op != "load" or ptr_arg_off(v.op(f.ins[ca[0]].ops[0])) != self.cap: continue
            self.data = ptr_arg_off(v.op(b.ops[0])); self.modk = cval(m)
    def modulus(self): return add(atom(cell(0, self.cap)), const(self.modk))
    def _loc(self, f):
        v = Values(f)
        e = v.op(ret_op(final_ret(f)[0]))
        a = [x for x in e if x != ONE]
        if len(a) != 1: raise Broken("%s does not return one counter" % f.q)
        li = f.ins[a[0]]
        k = ptr_arg_off(v.op(li.ops[0]))
        if li.op != "load" or k is None: raise Broken("%s does not return a field" % f.q)
        return k
    def cap_atom(self, ai):
        """expression of the capacity field in an analysed method"""
        fn = ai.fn; n = this_arg(fn)
        for i in fn.all_instrs():
            if i.op == "load" and ptr_arg_off(ai.v.op(i.ops[0]), n) == self.cap: return ai.v.lin(i.id)
        return None

from lib import *
from checks.circular import Ring, ROOTS

def check_add(R, ring, f):
    """Add: protocol of one insertion attempt"""
    H, T, A = "arg0", "arg1", None
    head, tail = ring.head, ring.tail
    inst_ = "CircularBuffer::Add"
    seen = {"slot": 0, "head": 0, "true": 0, "false": 0}
    track = lambda e, i, st: "owner" if e == atom("arg1") else None
    def classify(ai, ptr):
        k = ptr_arg_off(ptr)
        if k == head: return "head"
        if k == tail: return "tail"
        return None
    def slot_index(ai, ptr):
        """(h-index atom) if ptr is data + 8*atom"""
        vs = [(a, c) for a, c in ptr.items() if a != ONE]
        if len(vs) != 2 or ptr.get(ONE): return None
        ix = [a for a, c in vs if c == 8]
        return ix[0] if len(ix) == 1 else None
    def hook(st, i):
        ai = st.ai; v = ai.v
        ob = lambda rule, ok, msg: R.ob(rule, inst_, ok, f.loc(i), msg) if st.checking else None
        if i.op == "load" and "ord" in i.d:
            w = classify(ai, v.op(i.ops[0]))
            if w == "tail":
                st.set("T", i.id); st.set("H", None)
            elif w == "head":
                st.set("H", i.id if st.get("T") is not None else None)
                if st.get("T") is None:
                    st.set("Hbad", True)
        if i.op in ("store", "atomicrmw"):
            p = v.op(i.ops[1] if i.op == "store" else i.ops[0])
            w = classify(ai, p)
            if w: ob("add-head-cas", False, "the producer changes a position counter without a compare-exchange that proves no other producer moved it")
        if i.op == "cmpxchg":
            p = v.op(i.ops[0])
            w = classify(ai, p)
            if w == "head":
                seen["head"] += 1
                h = st.get("H")
                ok = h is not None and st.eq(sub(v.op(i.ops[1]), v.lin(h))) and st.eq(sub(v.op(i.ops[2]), add(v.lin(h), const(1))))
                sh = st.get("slotH")
                ob("add-head-cas", sh is None or st.eq(sub(v.op(i.ops[1]), v.lin(sh))), "the head position is advanced from another value than the one whose slot was claimed")
                ob("add-head-cas", ok, "the head position is not advanced from the value read in this attempt to that value plus one")
                s = st.get("slot")
                ob("add-claim-before-publish", s is not None and st.eq(add(atom(s), const(-1))),
                   "the head position is published although the slot at it was not successfully claimed on this path")
                ob("add-release", has_release(i.d["ord"]), "the head position is published without release ordering: a consumer can see the new head before the stored element")
                st.set("headcas", i.id)
            elif w == "tail":
                ob("add-head-cas", False, "a producer changes the consumer's position")
            else:
                seen["slot"] += 1
                h, t = st.get("H"), st.get("T")
                ix = slot_index(ai, p)
                cap = ring.cap_atom(ai)
                good = False
                if ix is not None and h is not None and cap is not None and isinstance(ix, int):
                    x = ai.fn.ins.get(ix)
                    good = x is not None and x.op in ("urem", "srem") and st.eq(sub(v.op(x.ops[0]), v.lin(h))) and ring.modk is not None and st.eq(sub(sub(v.op(x.ops[1]), cap), const(ring.modk)))
                ob("add-slot-address", good, "an element is stored at a slot that is not (head read in this attempt) modulo the number of slots")
                roomy = h is not None and t is not None and cap is not None and st.ge(add(sub(add(cap, const(ring.capk - 1)), v.lin(h)), v.lin(t)))
                ob("add-never-overwrites", roomy, "an element is stored although head - tail < max_size, with tail read before head, is not established on this path; facts: " + facts(st))
                ob("add-slot-was-empty", st.eq(v.op(i.ops[1])), "the slot is claimed without requiring that it is empty")
                ob("add-stores-owned", st.eq(sub(v.op(i.ops[2]), atom("owner"))), "the value stored in the slot is not the caller's element")
                s = st.get("slot")
                ob("add-undo", s is None or st.eq(atom(s)), "a second slot is claimed while an earlier claim of this call is still in place")
                st.set("slot", None); st.set("pend", i.id); st.set("slotptr", key(p)); st.set("slotH", h)
        if i.op == "extractvalue" and i.d["idx"] == [1]:
            src = ai.fn.val(i.ops[0])
            e = v.lin(i.id)
            a = next(iter(e))
            if src is not None and src.id == st.get("pend"): st.set("slot", a)
            if src is not None and src.id == st.get("headcas"): st.set("headok", a)
        if i.op == "atomicrmw":
            p = v.op(i.ops[0])
            if i.d["rmw"] == "xchg" and key(p) == st.get("slotptr"):
                s = st.get("slot")
                ho = st.get("headok")
                ob("add-undo", s is not None and st.eq(add(atom(s), const(-1))) and st.eq(v.op(i.ops[1])) and (ho is None or st.eq(atom(ho))),
                   "an occupied slot is exchanged outside the undo of this call's own unpublished claim")
                st.set("undone", i.id); st.set("slot", None); st.set("pend", None); st.set("slotptr", None)
                st.set("headcas", None); st.set("headok", None)
        c = callee_of(i) if i.op in ("call", "invoke") else None
        if c and (c.startswith("_ZNKSt14default_delete") or DEALLOC.match(c)):
            p = v.op(i.ops[-1] if c.startswith("_ZNKSt14") else i.ops[0])
            # nothing may be destroyed by Add unless it is provably null
            ob("add-no-destroy", st.eq(p), "an element is destroyed while being added")
        if i.op == "ret":
            ob("add-no-destroy", True, "")
            r = v.op(ret_op(i))
            h, t, s = st.get("H"), st.get("T"), st.get("slot")
            ho = st.get("headok")
            cap = ring.cap_atom(ai)
            if st.eq(add(r, const(-1))):
                seen["true"] += 1
                ob("add-true-means-published", ho is not None and st.eq(add(atom(ho), const(-1))), "success is reported on a path where the head position was not advanced")
                ob("add-ownership", st.eq(atom("owner")), "after a successful add the caller still owns the element that is in the buffer")
            elif st.eq(r):
                seen["false"] += 1
                ob("add-false-means-full", h is not None and t is not None and cap is not None and st.ge(sub(sub(v.lin(h), v.lin(t)), add(cap, const(ring.capk)))),
                   "failure is reported although it is not established that the buffer held max_size elements (tail read before head); facts: " + facts(st))
                ob("add-ownership", (s is None or st.eq(atom(s))) and st.ne(atom("owner")),
                   "failure is reported while the element is in the buffer or no longer owned by the caller")
            else:
                ob("add-true-means-published", False, "the result of Add is not determined by the protocol outcome")
    def init(st):
        st.poly.add_ne(atom("owner"))
    def rmw(st, i): pass
    def hook2(st, i):
        hook(st, i)
        # a failed undo exchange returns what the slot held: this call's own element
        if i.op == "atomicrmw" and i.d.get("rmw") == "xchg" and st.get("undone") == i.id:
            st.poly.add_ne(st.ai.v.lin(i.id))
    def resolve(st, b, s_, k):
        # outcomes of this attempt's compare-exchanges become finite states as soon as they are known
        s = st.get("slot")
        if isinstance(s, int) and st.eq(atom(s)): st.set("slot", None); st.set("pend", None); st.set("slotptr", None)
        h = st.get("headok")
        if isinstance(h, int) and st.eq(atom(h)) and st.get("slot") is None: st.set("headok", None); st.set("headcas", None)
    AbsInt(f, hook=hook2, init=init, edge_hook=resolve, const_load=ring.const_load, track=track).run()
    if not seen["slot"]: R.ob("add-never-overwrites", inst_, False, f.loc(None), "no compare-exchange claims a slot for the new element")
    if not seen["head"]: R.ob("add-head-cas", inst_, False, f.loc(None), "the head position is never advanced by compare-exchange")
    if not seen["true"]: R.ob("add-true-means-published", inst_, False, f.loc(None), "Add never reports success")
    if not seen["false"]: R.ob("add-false-means-full", inst_, False, f.loc(None), "Add never reports that the buffer is full")

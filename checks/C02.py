"""Modular contracts of the circular buffer's consumer side and of its range type, checked by abstract interpretation
(trace-partitioned, affine/linear facts) for every head, tail and capacity satisfying the buffer's invariant."""
from lib import *
from contract import *
from checks.circular import Ring

RULES = {
    "range-constructor": "a range consists of the four iterators it was built from",
    "foreach-order": "iteration visits the first segment and then the second, each element once and in order",
    "foreach-stops": "iteration stops as soon as, and reports false exactly when, the callback asks for it",
    "range-size": "a range's size is the sum of its segments",
    "range-empty": "a range is empty exactly when it has no element",
    "range-take": "taking n elements yields the first n of the range",
    "range-convert": "converting a range keeps its elements",
    "peek-range": "peeking yields exactly the slots from the oldest unconsumed to the newest published element, in order",
    "peek-acquire": "the head position is read with acquire ordering before slots are accessed",
    "size": "size is the number of published and unconsumed elements",
    "empty": "the buffer is empty exactly when it holds no element",
    "consume-range": "the callback receives exactly the n oldest elements",
    "consume-advances": "consuming n elements advances the tail by exactly n, once",
    "consume-empties": "consumed slots are emptied, each once, oldest first, and their elements destroyed exactly once",
    "clear-all": "clearing consumes everything that was in the buffer",
    "slot-reset": "resetting or destroying an atomic slot installs the new value and destroys the old one exactly once",
    "slot-initially-null": "a slot starts out empty",
    "construct": "a new buffer is empty and has as many slots as it indexes, enough for its maximum size",
}

def check(R):
    for k, t in RULES.items(): R.rule(k, t)
    ring = Ring()
    u = ring.u
    R.assume("positions and sizes are below 2^62; the consumer side is used by one thread at a time")
    elem = lambda f: f.scope == "lightstep::CircularBufferRange<verif::Elem>"
    rq = "lightstep::CircularBufferRange::"
    # --- the range type --------------------------------------------------------
    ctor = one(u, rq + "CircularBufferRange", lambda f: elem(f) and len(f.args) == 5)
    off = {}
    def on_ret(st, i, r):
        if not st.checking: return
        for n in range(1, 5):
            o = [k for k in range(0, 32, 8) if st.eq(sub(atom(cell(0, k)), atom(arg(n))))]
            if o: off[n] = o[0]
        R.ob("range-constructor", ctor.q, len(set(off.values())) == 4, ctor.loc(i), "the constructor does not store its four iterators in four distinct fields")
    Mem(ctor, on_ret=on_ret).run()
    if len(off) != 4:
        return
    F1, L1, F2, L2 = [off[n] for n in (1, 2, 3, 4)]
    dflt = [f for f in u.byq.get(rq + "CircularBufferRange", []) if elem(f) and len(f.args) == 1]
    for f in dflt:
        def on_ret(st, i, r, f=f):
            if st.checking:
                R.ob("range-constructor", f.q + "()", all(st.eq(sub(atom(cell(0, a)), atom(cell(0, b)))) for a, b in ((F1, L1), (F2, L2))), f.loc(i), "a default range is not empty")
        Mem(f, on_ret=on_ret).run()
    ES = 4
    A = lambda n, o: atom(cell(n, o))
    def rng_init(n, es, size=None):
        def init(st):
            st.assign("n1", atom("n1")); p = st.poly
            for nm in ("n1", "n2"): p.add_ge(atom(nm))
            p.add_eq(sub(sub(A(n, L1), A(n, F1)), {"n1": F(es)}))
            p.add_eq(sub(sub(A(n, L2), A(n, F2)), {"n2": F(es)}))
        return init
    # ForEach
    f = one(u, "verif::inst_foreach")
    def init(st):
        rng_init(0, ES)(st)
        for nm, o in (("f1", F1), ("l1", L1), ("f2", F2), ("l2", L2)): st.poly.add_eq(sub(atom(nm), A(0, o)))
        st.assign("pos", atom("f1")); st.assign("ok", const(1)); st.set("seg", 1)
        st.assign("k", {})
    def on_call(st, i, c):
        if cname(u, i) != "verif::visit": return
        x = st.lin(i.ops[0]); seg = st.get("seg")
        ok = lambda cond, msg: R.ob("foreach-order", f.q, cond, f.loc(i), msg) if st.checking else None
        if st.checking: R.ob("foreach-stops", f.q, st.ne(atom("ok")), f.loc(i), "iteration goes on after the callback returned false")
        if seg == 1 and st.eq(sub(x, atom("pos"))) and not st.eq(sub(atom("pos"), atom("l1"))):
            ok(st.ne(sub(atom("pos"), atom("l1"))), "the callback may be invoked past the end of the first segment")
            st.assign("pos", add(x, const(ES)))
        elif seg == 1 and st.eq(sub(x, atom("f2"))):
            ok(st.eq(sub(atom("pos"), atom("l1"))), "the second segment is visited before the first one was finished")
            ok(st.ne(sub(x, atom("l2"))), "the callback may be invoked past the end of the second segment")
            st.set("seg", 2); st.assign("pos", add(x, const(ES)))
        elif seg == 2 and st.eq(sub(x, atom("pos"))):
            ok(st.ne(sub(atom("pos"), atom("l2"))), "the callback may be invoked past the end of the second segment")
            st.assign("pos", add(x, const(ES)))
        else: ok(False, "an element is visited out of order or twice; facts: " + facts(st))
        st.assign("ok", st.ai.v.lin(i.id))
        return True
    def on_ret(st, i, r):
        if not st.checking: return
        done = (st.eq(sub(atom("pos"), atom("l1"))) and st.eq(sub(atom("l2"), atom("f2")))) if st.get("seg") == 1 else st.eq(sub(atom("pos"), atom("l2")))
        if st.eq(r): R.ob("foreach-stops", f.q, st.eq(atom("ok")), f.loc(i), "false is returned although the callback never returned false")
        elif st.eq(add(r, const(-1))):
            R.ob("foreach-order", f.q, done, f.loc(i), "true is returned before every element was visited")
            R.ob("foreach-stops", f.q, st.ne(atom("ok")), f.loc(i), "true is returned although the callback returned false")
        else:
            # result computed from the last callback
            R.ob("foreach-stops", f.q, False, f.loc(i), "the result is not determined by the callback")
    Mem(f, init=init, on_call=on_call, on_ret=on_ret).run()
    # size, empty, Take, conversion
    f = one(u, rq + "size", elem)
    Mem(f, init=rng_init(0, ES), on_ret=lambda st, i, r, f=f: st.checking and R.ob("range-size", f.q, st.eq(sub(sub(r, atom("n1")), atom("n2"))), f.loc(i), "size() is not the number of elements")).run()
    f = one(u, rq + "empty", elem)
    for name, extra, want in (("empty", lambda p: (p.add_eq(atom("n1")), p.add_eq(atom("n2"))), 1), ("nonempty", lambda p: p.add_ge(add(atom("n1"), const(-1))), 0)):
        def init(st, extra=extra):
            rng_init(0, ES)(st); extra(st.poly)
        def on_ret(st, i, r, want=want, name=name, f=f):
            if not st.checking: return
            x = f.val(ret_op(i))
            s2 = State(st.ps, st.poly.copy(), st.ai, False); st.ai.assume(s2, ret_op(i), not want)
            R.ob("range-empty", name, s2.poly.bot or not s2.poly.feasible(), f.loc(i), "empty() gives the wrong answer for a %s range" % name)
        Mem(f, init=init, on_ret=on_ret).run()
    f = one(u, rq + "Take", elem)
    sret = this_arg(f)
    def init(st):
        rng_init(sret, ES)(st); p = st.poly
        p.add_ge(atom(arg(sret + 1))); p.add_ge(sub(add(atom("n1"), atom("n2")), atom(arg(sret + 1))))
        for nm, o in (("f1", F1), ("l1", L1), ("f2", F2), ("l2", L2)): p.add_eq(sub(atom(nm), A(sret, o)))
        # a wrapped range only exists when its first segment is not empty
    def prefix(st, get, src, n, es, ob):
        """cells get(off) hold the first n elements of src (names of four iterators)"""
        o1 = sub(get(L1), get(F1)); o2 = sub(get(L2), get(F2))
        ob(st.eq(sub(add(o1, o2), scale(n, es))), "the result does not have the requested number of elements; facts: " + facts(st))
        ob(st.ge(o1) and st.ge(o2), "a segment of the result ends before it starts")
        for s, nonempty, first in ((o1, 1, True), (o2, 1, False)):
            q = st.poly.copy(); q.add_ge(add(s, const(-1)))
            if q.bot or not q.feasible(): continue
            if first: ob(q.entails_eq(sub(get(F1), src[0])) and q.entails_ge(sub(src[1], get(L1))), "the first segment of the result is not a prefix of the first segment")
            else: ob(q.entails_eq(sub(get(F1), src[0])) and q.entails_eq(sub(get(L1), src[1])) and q.entails_eq(sub(get(F2), src[2])) and q.entails_ge(sub(src[3], get(L2))), "the second segment of the result does not follow the complete first segment")
    def on_ret(st, i, r):
        if not st.checking: return
        prefix(st, lambda o: A(0, o), [atom(x) for x in ("f1", "l1", "f2", "l2")], atom(arg(sret + 1)), ES,
               lambda cond, msg: R.ob("range-take", f.q, cond, f.loc(i), msg))
    if not sret: R.ob("range-take", f.q, False, f.loc(None), "Take does not return a range")
    else: Mem(f, init=init, on_ret=on_ret).run()
    f2 = one(u, "verif::inst_convert"); s2 = this_arg(f2)
    def init(st):
        for nm, o in (("f1", F1), ("l1", L1), ("f2", F2), ("l2", L2)): st.poly.add_eq(sub(atom(nm), A(s2, o)))
    def on_ret(st, i, r):
        if st.checking:
            R.ob("range-convert", f2.q, all(st.eq(sub(A(0, o), atom(nm))) for nm, o in (("f1", F1), ("l1", L1), ("f2", F2), ("l2", L2))), f2.loc(i), "the converted range differs from the original")
    Mem(f2, init=init, on_ret=on_ret).run()
    # --- atomic slots -----------------------------------------------------------
    aq = "lightstep::AtomicUniquePtr::"
    ap = lambda f: f.scope == "lightstep::AtomicUniquePtr<verif::Elem>"
    for nm, want in (("Reset", lambda: atom(arg(1))), ("~AtomicUniquePtr", None)):
        f = one(u, aq + nm, ap)
        def init(st): st.assign("old", {}); st.set("x", 0)
        def on_store(st, i, f=f):
            if i.op == "atomicrmw" and ptr_arg_off(st.lin(i.ops[0])) == 0 and i.d["rmw"] == "xchg":
                if st.checking and want: R.ob("slot-reset", nm, st.eq(sub(st.lin(i.ops[1]), want())), f.loc(i), "the slot is not set to the new value")
                st.assign("old", st.ai.v.lin(i.id)); st.set("x", st.get("x") + 1)
                return True
            if i.op == "store" and ptr_arg_off(st.lin(i.ops[1])) == 0:
                if st.checking: R.ob("slot-reset", nm, False, f.loc(i), "the slot is overwritten without atomically taking the previous value")
                return True
        def on_call(st, i, c, f=f):
            if DEALLOC.match(c or "") or cname(u, i).startswith("std::default_delete::operator()"):
                p = st.lin(i.ops[-1] if "default_delete" in cname(u, i) else i.ops[0])
                if st.checking: R.ob("slot-reset", nm, st.eq(sub(p, atom("old"))) , f.loc(i), "something other than the replaced element is destroyed, or it is destroyed twice")
                st.assign("old", {})
                return True
            if "verif::Elem::~" in cname(u, i) or (c or "").startswith("_ZN5verif4ElemD"): return True
        def on_ret(st, i, r, f=f):
            if st.checking:
                R.ob("slot-reset", nm, st.get("x") == 1, f.loc(i), "the slot is not exchanged exactly once")
                R.ob("slot-reset", nm, st.eq(atom("old")), f.loc(i), "the replaced element is never destroyed")
        Mem(f, init=init, on_store=on_store, on_call=on_call, on_ret=on_ret).run()
    f = one(u, aq + "AtomicUniquePtr", lambda f: ap(f) and len(f.args) == 1)
    Mem(f, on_ret=lambda st, i, r, f=f: st.checking and R.ob("slot-initially-null", f.q, st.eq(A(0, 0)), f.loc(i), "a default constructed slot is not null")).run()
    # --- the buffer --------------------------------------------------------------
    head, tail, cap = ring.head, ring.tail, ring.cap
    if ring.data is None:
        R.ob("peek-range", "CircularBuffer", False, ring.m("Add").loc(None), "no slot is claimed at array + (position mod slots)")
        return
    def buf(f, n, precond=None, bt=None):
        """initial facts: 0 <= head - tail <= max_size; head read later may only be larger"""
        def init(st):
            p = st.poly
            t = A(n, tail)
            p.add_ge(t); p.add_eq(sub(t, atom("tail0")))
            p.add_ge(sub(atom("hlast"), t))
            M = add(A(n, cap), const(ring.modk)); mx = add(A(n, cap), const(ring.capk))
            p.add_ge(add(M, const(-1))); p.add_ge(mx); p.add_eq(sub(atom("M"), M)); p.add_eq(sub(atom("max"), mx))
            p.add_ge(sub(mx, sub(atom("hlast"), t)))
            p.add_eq(sub(atom("head0"), atom("hlast")))
            p.add_eq(sub(atom("data"), A(n, ring.data)))
            p.add_ge(sub(atom("M"), add(atom("max"), const(1)))) if rel_ok else None
            if precond: precond(st)
        return init
    # is the number of slots larger than the maximum number of elements? (fact about the two accessor expressions)
    rel_ok = ring.modk - ring.capk >= 1
    def on_load(n):
        def h(st, i):
            k = ptr_arg_off(st.lin(i.ops[0]), n)
            if k == head:
                a = st.ai.v.lin(i.id); p = st.poly
                p.add_ge(sub(a, atom("hlast"))); p.add_ge(sub(atom("max"), sub(a, atom("tail0"))))
                st.assign("hlast", a); st.set("hord", i.d.get("ord"))
                return True
        return h
    def note(n):
        def h(st, i):
            if i.op in ("urem", "srem"):
                p = st.poly
                if not p.entails_eq(sub(st.lin(i.ops[1]), atom("M"))): return
                x = st.lin(i.ops[0])
                e = st.ai.v.lin(i.id); p.add_ge(e)
                if p.entails_eq(sub(x, atom("tail0"))): p.add_eq(sub(atom("ti"), e)); st.set("ti", 1)
                elif p.entails_eq(sub(x, atom("hlast"))): st.assign("hi", e); st.assign("hused", x); st.set("hi", 1)
        return h
    def cases(st):
        """the two possible relations of head and tail indices"""
        out = []
        d = sub(atom("hi"), atom("ti"))
        for s in (0, 1):
            q = st.poly.copy()
            if st.get("ti") and st.get("hi"):
                q.add_ge(d if s == 0 else add(scale(d, -1), const(-1)))
                q.add_eq(sub(sub(atom("hused"), atom("tail0")), d if s == 0 else add(d, atom("M"))))
            elif s: continue
            if not q.bot and q.feasible(): out.append(q)
        return out
    def edge_hook(st, b, s, k):
        if st.get("ti") and st.get("hi") and not st.get("rel"):
            d = sub(atom("hi"), atom("ti")); p = st.poly
            if p.entails_ge(d): p.add_eq(sub(sub(atom("hused"), atom("tail0")), d)); st.set("rel", 1)
            elif p.entails_ge(add(scale(d, -1), const(-1))): p.add_eq(sub(sub(atom("hused"), atom("tail0")), add(d, atom("M")))); st.set("rel", 1)
    def is_slots(st, get, n, ob):
        """the range holds the n oldest elements"""
        M8 = {"data": F(1), "M": F(8)}
        for q in cases(st):
            o1 = sub(get(L1), get(F1)); o2 = sub(get(L2), get(F2))
            ob(q.entails_eq(sub(add(o1, o2), scale(n(q), 8))), "the range does not have the right number of elements")
            ob(q.entails_ge(o1) and q.entails_ge(o2), "a segment of the range ends before it starts")
            q1 = q.copy(); q1.add_ge(add(o1, const(-1)))
            if not q1.bot and q1.feasible():
                ob(st.get("ti") and q1.entails_eq(sub(get(F1), {"data": F(1), "ti": F(8)})) and q1.entails_ge(sub(M8, get(L1))), "the range does not start at the oldest element's slot")
            q2 = q.copy(); q2.add_ge(add(o2, const(-1)))
            if not q2.bot and q2.feasible():
                ob(st.get("ti") and q2.entails_eq(sub(get(L1), M8)) and q2.entails_eq(sub(get(F2), atom("data"))) and q2.entails_eq(sub(get(F1), {"data": F(1), "ti": F(8)})) and q2.entails_ge(add(o1, const(-1))),
                   "the wrapped part of the range does not continue at the first slot after the last one")
    f = ring.m("Peek"); n = this_arg(f)
    def on_ret(st, i, r):
        if not st.checking: return
        is_slots(st, lambda o: A(0, o), lambda q: sub(atom("hlast"), atom("tail0")), lambda c, m: R.ob("peek-range", "Peek", c, f.loc(i), m))
    def acq(st, i, f):
        if i.op == "load" and st.checking and ptr_arg_off(st.lin(i.ops[0]), this_arg(f)) == head:
            R.ob("peek-acquire", f.q, has_acquire(i.d.get("ord")), f.loc(i), "the consumer reads the head position without acquire ordering and may not see the elements published before it")
    def both(*hs):
        def h(st, i):
            for x in hs: x(st, i)
        return h
    Mem(f, init=buf(f, n), on_load=on_load(n), on_instr=both(note(n), lambda st, i: acq(st, i, f)), on_ret=on_ret, partition=True, edge_hook=edge_hook).run()
    fs = ring.m("size")
    Mem(fs, init=buf(fs, 0), on_load=on_load(0), on_ret=lambda st, i, r: st.checking and R.ob("size", "size", st.eq(sub(r, sub(atom("hlast"), atom("tail0")))), fs.loc(i), "size() is not head - tail")).run()
    fe = ring.m("empty")
    for nm, ex, want in (("empty", lambda st: st.poly.add_eq(sub(atom("hlast"), atom("tail0"))), 1), ("nonempty", lambda st: st.poly.add_ge(add(sub(atom("hlast"), atom("tail0")), const(-1))), 0)):
        def ol(st, i, want=want):
            k = ptr_arg_off(st.lin(i.ops[0]), 0)
            if k == head:
                a = st.ai.v.lin(i.id)
                if want: st.poly.add_eq(sub(a, atom("hlast")))      # no concurrent producer
                else: st.poly.add_ge(sub(a, atom("hlast")))
                return True
        def on_ret(st, i, r, want=want, nm=nm):
            if not st.checking: return
            s2 = State(st.ps, st.poly.copy(), st.ai, False); st.ai.assume(s2, ret_op(i), not want)
            R.ob("empty", nm, s2.poly.bot or not s2.poly.feasible(), fe.loc(i), "empty() gives the wrong answer for a buffer that is %s" % nm)
        Mem(fe, init=buf(fe, 0, ex), on_load=ol, on_ret=on_ret).run()
    # Consume(n, callback)
    fc = one(u, "verif::inst_consume")
    def pre(st):
        st.poly.add_ge(atom(arg(1))); st.poly.add_ge(sub(sub(atom("head0"), atom("tail0")), atom(arg(1))))
        st.set("taken", 0)
    def tail_store(f, n_of):
        def h(st, i):
            k = ptr_arg_off(st.lin(i.ops[1 if i.op == "store" else 0]), 0)
            if k != tail: 
                if k == head and st.checking: R.ob("consume-advances", f.q, False, f.loc(i), "the consumer changes the producers' position")
                return
            t = atom(cell(0, tail))
            if i.op == "atomicrmw" and i.d["rmw"] == "add": new = add(t, st.lin(i.ops[1]))
            elif i.op == "store": new = st.lin(i.ops[0])
            else: new = None
            if st.checking:
                R.ob("consume-advances", f.q, new is not None and n_of(st, new), f.loc(i), "the tail is not advanced by exactly the number of consumed elements")
                R.ob("consume-advances", f.q, has_release(i.d.get("ord")), f.loc(i), "the tail is advanced without release ordering")
            if i.op == "atomicrmw": st.poly.add_eq(sub(st.ai.v.lin(i.id), t))
            if new is not None: st.assign(cell(0, tail), new)
            else: st.havoc(cell(0, tail))
            return True
        return h
    def oc(st, i, c):
        if cname(u, i) != "verif::take": return
        l = mem.ptr(st, i.ops[0])
        if st.checking:
            R.ob("consume-range", fc.q, st.get("taken") == 0, fc.loc(i), "the callback is invoked twice")
            if l is None: R.ob("consume-range", fc.q, False, fc.loc(i), "the callback does not receive the range of consumed elements")
            else: is_slots(st, lambda o: atom(mvar(l[1], l[2] + o)), lambda q: atom(arg(1)), lambda c, m: R.ob("consume-range", fc.q, c, fc.loc(i), m))
        st.set("taken", 1)
        return True
    def orr(st, i, r):
        if not st.checking: return
        R.ob("consume-range", fc.q, st.get("taken") == 1, fc.loc(i), "elements are consumed without being handed to the callback")
        R.ob("consume-advances", fc.q, st.eq(sub(sub(A(0, tail), atom("tail0")), atom(arg(1)))), fc.loc(i), "the tail is not advanced by the number of consumed elements")
    mem = Mem(fc, init=buf(fc, 0, pre), on_load=on_load(0), on_store=tail_store(fc, lambda st, new: st.eq(sub(sub(new, atom("tail0")), atom(arg(1))))),
              on_call=oc, on_ret=orr, on_instr=both(note(0), lambda st, i: acq(st, i, fc)), partition=True, edge_hook=edge_hook)
    mem.run()
    # Consume(n) and Clear()
    for nm in ("Consume", "Clear"):
        f = ring.m(nm)
        def pre(st, nm=nm):
            if nm == "Consume":
                st.poly.add_ge(atom(arg(1))); st.poly.add_ge(sub(sub(atom("head0"), atom("tail0")), atom(arg(1))))
            st.assign("j", {}); st.assign("old", {})
        ts = tail_store(f, (lambda st, new: st.eq(sub(sub(new, atom("tail0")), atom(arg(1))))) if nm == "Consume" else
                        (lambda st, new: st.ge(sub(new, atom("head0"))) and st.ge(sub(atom("hlast"), new))))
        def on_store(st, i, f=f, nm=nm, ts=ts):
            if ts(st, i): return True
            p = st.lin(i.ops[1 if i.op == "store" else 0])
            if "data" not in st.poly.reduce(p) and not (st.poly.reduce(sub(p, atom("data"))).get("data") is None and 8 in p.values()): pass
            if i.op == "atomicrmw" and i.d["rmw"] == "xchg":
                if st.checking:
                    ok = True; fail = ""
                    for q in cases(st):
                        for w in (0, 1):
                            q1 = q.copy(); e = sub(sub(atom("M"), const(1)), add(atom("ti"), atom("j")))
                            q1.add_ge(e if w == 0 else add(scale(e, -1), const(-1)))
                            if q1.bot or not q1.feasible(): continue
                            want = {"data": F(1), "ti": F(8), "j": F(8)}
                            if w: want = sub(want, {"M": F(8)})
                            if not q1.entails_eq(sub(p, want)): ok = False; fail = "case %d: " % w + q1.show(str) + " ps=" + str(st.ps)
                    R.ob("consume-empties", f.q, ok and st.get("ti"), f.loc(i), "a slot is emptied out of order, twice, or outside the consumed range; facts: " + fail)
                    R.ob("consume-empties", f.q, st.eq(st.lin(i.ops[1])), f.loc(i), "a consumed slot is not set to null")
                    R.ob("consume-empties", f.q, st.eq(atom("old")), f.loc(i), "a consumed element is not destroyed")
                st.assign("j", add(atom("j"), const(1))); st.assign("old", st.ai.v.lin(i.id))
                return True
        def on_call(st, i, c, f=f):
            q = cname(u, i)
            if DEALLOC.match(c or "") or "default_delete" in q:
                p = st.lin(i.ops[-1] if "default_delete" in q else i.ops[0])
                if st.checking: R.ob("consume-empties", f.q, st.eq(sub(p, atom("old"))), f.loc(i), "something other than the consumed element is destroyed, or it is destroyed twice")
                st.assign("old", {})
                return True
            if "verif::Elem::~" in q or (c or "").startswith("_ZN5verif4ElemD"): return True
        def on_ret(st, i, r, f=f, nm=nm):
            if not st.checking: return
            R.ob("consume-empties", f.q, st.eq(atom("old")), f.loc(i), "a consumed element is not destroyed")
            R.ob("consume-advances", f.q, st.eq(sub(sub(A(0, tail), atom("tail0")), atom("j"))), f.loc(i), "the tail is not advanced by the number of emptied slots; facts: " + facts(st))
            if nm == "Consume": R.ob("consume-empties", f.q, st.eq(sub(atom("j"), atom(arg(1)))), f.loc(i), "not exactly n slots are emptied; facts: " + facts(st))
            else: R.ob("clear-all", f.q, st.ge(sub(add(atom("tail0"), atom("j")), atom("head0"))), f.loc(i), "elements remain after clearing")
        Mem(f, init=buf(f, 0, pre), on_load=on_load(0), on_store=on_store, on_call=on_call, on_ret=on_ret,
            on_instr=both(note(0), lambda st, i, f=f: acq(st, i, f)), partition=True, edge_hook=edge_hook).run()
    # construction
    f = one(u, "lightstep::CircularBuffer::CircularBuffer", lambda f: f.scope == "lightstep::CircularBuffer<verif::Elem>" and len(f.args) == 2)
    def on_call(st, i, c):
        if c in ("_Znam", "_Znwm"):
            st.poly.add_ne(st.ai.v.lin(i.id)); st.assign("bytes", st.lin(i.ops[0])); st.assign("blk", st.ai.v.lin(i.id))
            return True
    def oi(st, i):
        # the array allocation size: count * 8 + 8 (cookie)
        if i.op == "select": pass
        if i.op == "extractvalue" and i.d["idx"] == [0]:
            x = f.val(i.ops[0])
            c = callee_of(x) if x is not None and x.op in ("call",) else ""
            if c and ("mul.with.overflow" in c or "add.with.overflow" in c):
                a, b = st.lin(x.ops[0]), st.lin(x.ops[1])
                if "mul" in c and is_const(b): st.poly.add_eq(sub(st.ai.v.lin(i.id), scale(a, cval(b))))
                if "add" in c: st.poly.add_eq(sub(st.ai.v.lin(i.id), add(a, b)))
        if i.op == "extractvalue" and i.d["idx"] == [1]:
            x = f.val(i.ops[0])
            if x is not None and x.op == "call" and "with.overflow" in (callee_of(x) or ""): st.poly.add_eq(st.ai.v.lin(i.id))
        if i.op == "or" and i.ty == "i1":
            if st.eq(st.lin(i.ops[0])) and st.eq(st.lin(i.ops[1])): st.poly.add_eq(st.ai.v.lin(i.id))
    def on_ret(st, i, r):
        if not st.checking: return
        ob = lambda c, m: R.ob("construct", f.q, c, f.loc(i), m)
        cp = A(0, cap)
        ob(st.eq(sub(add(cp, const(ring.capk)), atom(arg(1)))), "max_size() is not the size the buffer was created with")
        ob(st.eq(sub(A(0, head), A(0, tail))) and st.eq(A(0, tail)), "a new buffer does not start out empty at position 0")
        room = sub(add(atom("blk"), atom("bytes")), add(A(0, ring.data), scale(add(cp, const(ring.modk)), 8)))
        ob(st.ge(room), "fewer slots are allocated than the buffer indexes; facts: " + facts(st))
        ob(ring.modk - ring.capk >= 1, "the slots cannot distinguish a full from an empty buffer")
    Mem(f, init=lambda st: st.poly.add_ge(atom(arg(1))), on_call=on_call, on_instr=oi, on_ret=on_ret).run()
    R.saw("functions", 16)

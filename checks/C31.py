"""Decides that the index list always is a permutation of 0..n-1 (filled with 0..n-1, afterwards only changed by exchanging
two of its elements), that position k is handed to the callback in the k-th call and no longer changes afterwards, that
every position is visited unless the callback declines, and that the result says so."""
from lib import *
from contract import *
import ir
RULES = {
    "fill": ("the index list starts as 0..n-1", 1),
    "permute": ("the list is only changed by exchanging two elements inside it", 0),
    "final": ("a position visited is not changed any more", 0),
    "visit": ("the callback is given each position's index once, in order, until it declines; the result says whether it declined", 1),
}
Q = "lightstep::RandomTraverser::"
def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    u = ir.view("traverser", [r"lightstep::RandomTraverser::[^~]*"], barriers=[r"lightstep::GetRandomNumberGenerator"], inlines=[r"std::iter_swap"])
    rec = ir.program().record("lightstep::RandomTraverser")
    vs = [e["off"] for e in (rec["els"] if rec else []) if e["k"] == "DW_TAG_member" and "vector<int" in e["t"]]
    if len(vs) != 1: raise Broken("RandomTraverser: the list of indexes is not one std::vector<int>")
    off = vs[0]
    walk(R, u, one(u, Q + "ForEachIndex"), off)
    fill(R, u, one(u, Q + "RandomTraverser"), off)
    R.assume("std::uniform_int_distribution(a, b) yields values in [a, b]; std::shuffle and std::iota do what they say")
    R.assume("the number of indexes fits an int (the constructor takes an int)")

class Elems:
    """element-granular model of the vector at this+off"""
    def __init__(self, f, off):
        self.f = f; t = this_arg(f); self.D = cell(t, off); self.E = cell(t, off + 8)
    def idx(self, st, o):
        """4 * index if o addresses an element"""
        e = st.poly.reduce(sub(st.lin(o), atom(self.D)))
        d = st.poly.reduce(atom(self.D))
        # no address part may remain
        for a in list(d):
            if a != ONE and e.get(a): return None
        if e.get(self.D): return None
        for a in e:
            if isinstance(a, tuple) and a[0] == "m" and a not in (self.E,): return None
            if isinstance(a, str) and a.startswith("@"): return None
            i = self.f.ins.get(a) if not isinstance(a, tuple) else None
            if i is not None and (i.op in ("alloca",) or (i.op == "load" and i.ty == "ptr")): return None
        return e
    def size(self): return sub(atom(self.E), atom(self.D))

def walk(R, u, f, off):
    S = Elems(f, off); v4 = scale(atom("v"), 4)
    def ob(rule, i, ok, msg): R.ob(rule, f.q, ok, f.loc(i), msg)
    def init(st):
        st.assign("v", {}); st.poly.add_ge(S.size()); st.poly.add_ge(atom("k"))
        st.poly.add_eq(sub(S.size(), scale(atom("k"), 4)))
        st.set("lv", ()); st.set("stopped", 0); st.set("pendfr", 0)
    def on_load(st, i):
        if not i.ty.startswith("i"): return None
        e = S.idx(st, i.ops[0])
        if e is None: return None
        st.assign(("li", i.id), e)
        st.set("lv", tuple(sorted(set(st.get("lv")) | {i.id})))
        return True
    def on_store(st, i):
        e = S.idx(st, i.ops[1])
        if e is None or i.op != "store": return None
        x = f.val(i.ops[0]); lv = st.get("lv"); pend = st.get("pend")
        if st.checking:
            ob("final", i, st.ge(sub(e, v4)), "a position already visited is changed; facts: " + facts(st))
            ob("permute", i, st.ge(e) and st.ge(sub(sub(S.size(), const(4)), e)), "an element outside the list is changed; facts: " + facts(st))
        if pend is None:
            y = [l for l in lv if st.eq(sub(atom(("li", l)), e))]
            ok = x is not None and x.id in lv and bool(y)
            if st.checking and not ok: ob("permute", i, False, "an element is overwritten, not exchanged")
            if ok: st.set("pend", (x.id, y[0])); st.assign("hole", e)
            else: st.set("lv", ())
        else:
            xs, ys = pend
            ok = x is not None and x.id == ys and st.eq(sub(e, atom(("li", xs))))
            if st.checking: ob("permute", i, ok, "an element is overwritten, not exchanged")
            st.assign(("li", ys), e); st.assign(("li", xs), atom("hole"))
            st.set("pend", None); st.set("lv", tuple(sorted({xs, ys})))
        return True
    def on_call(st, i, c):
        q = cname(u, i)
        if c == "":
            if st.checking:
                R.saw("callback sites")
                a = i.ops[-1]
                good = any(st.eq(sub(st.lin(a), st.ai.v.lin(l))) and st.eq(sub(atom(("li", l)), v4)) for l in st.get("lv"))
                ob("visit", i, good, "the callback is not given the next position's index; facts: " + facts(st))
                ob("visit", i, st.ge(sub(sub(S.size(), const(4)), v4)), "more positions are visited than there are")
                ob("visit", i, st.get("pendfr") == 0, "the traversal goes on without regard to what the callback returned")
                ob("visit", i, st.get("stopped") == 0, "the traversal goes on after the callback declined")
                ob("permute", i, st.get("pend") is None, "the callback runs while the list is not a permutation")
            st.assign("v", add(atom("v"), const(1))); st.assign("fr", st.ai.v.lin(i.id)); st.set("pendfr", 1)
            return True
        if "uniform_int_distribution" in q:
            if q.endswith("::uniform_int_distribution"):
                l = st.ai.mem.ptr(st, i.ops[0])
                if l is not None and len(i.ops) >= 3: st.set(("dist", str(l[1])), 1); st.assign(("da", l[1]), st.lin(i.ops[1])); st.assign(("db", l[1]), st.lin(i.ops[2]))
                return True
            l = st.ai.mem.ptr(st, i.ops[0])
            if l is not None and st.get(("dist", str(l[1]))):
                r = st.ai.v.lin(i.id); st.poly.add_ge(sub(r, atom(("da", l[1])))); st.poly.add_ge(sub(atom(("db", l[1])), r))
            return True
        if q == "std::shuffle":
            ok = st.eq(sub(st.lin(i.ops[0]), add(atom(S.D), v4))) and st.eq(sub(st.lin(i.ops[1]), atom(S.E)))
            if st.checking: ob("permute", i, ok, "another range than the list's unvisited part is shuffled")
            st.set("lv", ()); return True
        if q == "lightstep::GetRandomNumberGenerator" or c.startswith("llvm."): return None
        return None
    def edge(st, b, s, k):
        if st.get("pendfr"):
            if st.eq(atom("fr")): st.set("stopped", 1); st.set("pendfr", 0)
            elif st.eq(add(atom("fr"), const(-1))): st.set("pendfr", 0)
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        ob("permute", i, st.get("pend") is None, "the list is left with a duplicate")
        if st.get("stopped"): ob("visit", i, st.eq(r), "true is returned although the callback declined")
        elif st.get("pendfr"):
            ob("visit", i, st.eq(sub(r, atom("fr"))), "the result is not whether the callback declined")
            ob("visit", i, st.eq(sub(v4, S.size())) , "positions are skipped")
        else:
            ob("visit", i, st.eq(add(r, const(-1))), "false is returned although the callback never declined; facts: " + facts(st))
            ob("visit", i, st.eq(sub(v4, S.size())), "positions are skipped; facts: " + facts(st))
    m = Mem(f, init=init, on_call=on_call, on_ret=on_ret, on_load=on_load, on_store=on_store, edge_hook=edge, keep=lambda st, i, b: b == arg(this_arg(f)))
    m.ai.mem = m; m.run(); R.saw("methods analysed")

def fill(R, u, f, off):
    S = Elems(f, off); t = this_arg(f); n = atom(arg(t + 1))
    def ob(i, ok, msg): R.ob("fill", f.q, ok, f.loc(i), msg)
    def init(st): st.assign("fc", {}); st.set("iota", 0); st.poly.add_ge(n)
    def on_call(st, i, c):
        q = cname(u, i)
        vec = len(i.ops) > 0 and i.op in ("call", "invoke") and st.eq(sub(st.lin(i.ops[0]), add(atom(arg(t)), const(off))))
        if q == "std::vector::vector" and vec:
            sz = st.lin(i.ops[1]) if len(i.ops) > 2 or (len(i.ops) == 2 and f.val(i.ops[1]) is not None and f.val(i.ops[1]).op != "alloca") else {}
            st.assign(S.D, atom("data")); st.assign(S.E, add(atom("data"), scale(sz, 4)))
            return True
        if q == "std::vector::resize" and vec:
            st.assign(S.D, atom("data")); st.assign(S.E, add(atom("data"), scale(st.lin(i.ops[1]), 4))); return True
        if q in ("std::vector::push_back", "std::vector::emplace_back") and vec:
            l = st.ai.mem.ptr(st, i.ops[1])
            if st.checking: ob(i, l is not None and st.eq(sub(atom(l), atom("fc"))), "the list is not filled with consecutive indexes")
            st.assign("fc", add(atom("fc"), const(1))); st.assign(S.E, add(atom(S.E), const(4))); return True
        if q == "std::iota":
            if st.checking: ob(i, st.eq(sub(st.lin(i.ops[0]), atom(S.D))) and st.eq(sub(st.lin(i.ops[1]), atom(S.E))) and st.eq(st.lin(i.ops[2])), "not the whole list is filled with the indexes from 0")
            st.set("iota", 1); return True
        return True if q.startswith("std::") else None
    def on_store(st, i):
        if i.op != "store": return None
        e = S.idx(st, i.ops[1])
        if e is None or not any(a not in (ONE,) for a in e) and f.val(i.ops[1]) is not None and f.val(i.ops[1]).op == "alloca": return None
        if st.checking: ob(i, st.eq(sub(e, scale(atom("fc"), 4))) and st.eq(sub(st.lin(i.ops[0]), atom("fc"))), "a position is not filled with its own index; facts: " + facts(st))
        st.assign("fc", add(atom("fc"), const(1)))
        return True
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        ob(i, st.eq(sub(S.size(), scale(n, 4))), "the list does not have one position per index; facts: " + facts(st))
        ob(i, st.get("iota") == 1 or st.eq(sub(atom("fc"), n)), "the list is not filled completely")
    m = Mem(f, init=init, on_call=on_call, on_ret=on_ret, on_store=on_store)
    m.ai.mem = m; m.run(); R.saw("methods analysed")

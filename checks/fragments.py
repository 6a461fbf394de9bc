"""Contracts of the fragment streams themselves: positions, iteration, counting, repositioning, output."""
from lib import *
from contract import *
import ir

FA = "lightstep::FragmentArrayInputStream"
CS = "lightstep::ChainedStream"
CO = "lightstep::ComposableFragmentInputStream"

def members(u, q):
    r = [x for x in u.records if strip_q(x["q"]) == q] or [x for x in ir.program().records if strip_q(x["q"]) == q]
    if not r: raise Broken("class %s not found" % q)
    return {e["n"]: e for e in r[0]["els"] if e["k"] == "DW_TAG_member" and not e.get("static")}
def strip_q(q): return ir.strip_templates(q)

def fragview():
    return ir.view("fragments", [re.escape(x) + r"::[^:]*" for x in (FA, CS, CO)], [CO + "::Append"])

class Asks:
    """the callback's answers: asked again only after yes, and the result of the iteration says whether it declined"""
    def __init__(self, ob, a=1):
        self.ob = ob; self.a = a
    def init(self, st): st.set("stopped", 0); st.set("pend", 0); st.assign("k", {})
    def is_callback(self, st, i):
        c = i.d.get("callee")
        return callee_of(i) is None and c is not None
    def ask(self, st, i):
        """a callback or a nested iteration is called"""
        if st.checking:
            self.ob(i, st.get("stopped") == 0 and st.get("pend") == 0, "the iteration goes on although the callback declined or its answer was not looked at")
        st.set("pend", 1); st.assign("ans", st.ai.v.lin(i.id))
        st.assign("k", add(atom("k"), const(1)))
    def target(self, st, i):
        if st.checking:
            self.ob(i, st.eq(sub(st.lin(i.d["callee"]), atom(arg(self.a + 1)))) and st.eq(sub(st.lin(i.ops[0]), atom(arg(self.a)))), "something else than the given callback is called")
    def edge(self, st):
        if st.get("pend"):
            if st.eq(atom("ans")): st.set("stopped", 1); st.set("pend", 0)
            elif st.ne(atom("ans")): st.set("pend", 0)
    def ret(self, st, i, r, complete, what="fragments are left out"):
        if not st.checking: return
        if st.get("stopped"): self.ob(i, st.eq(r), "the result says the iteration was completed although the callback declined")
        elif st.get("pend"):
            self.ob(i, st.eq(sub(r, atom("ans"))), "the result does not say whether the callback declined")
            p = st.poly.copy(); p.add_eq(add(atom("ans"), const(-1)))
            self.ob(i, complete(p), what)
        else:
            self.ob(i, st.eq(add(r, const(-1))), "the result says the iteration was interrupted although it was not")
            self.ob(i, complete(st.poly), what)

class Nodes:
    """position in a linked list: np the node reached, no its ordinal, pp the node before"""
    def __init__(self, next_off): self.off = next_off
    def init(self, st, first):
        st.assign("np", first); st.assign("no", {}); st.set("pp", 0)
    def load(self, st, i):
        e = st.lin(i.ops[0])
        d = sub(e, atom("np"))
        if st.eq(add(d, const(-self.off))):
            r = st.ai.v.lin(i.id)
            st.assign("pp", atom("np")); st.set("pp", 1)
            st.assign("np", r); st.assign("no", add(atom("no"), const(1)))
            return True
        if st.get("pp") and st.eq(add(sub(e, atom("pp")), const(-self.off))):
            st.poly.add_eq(sub(st.ai.v.lin(i.id), atom("np")))
            return True
        return False
    def which(self, st, p, off=0):
        """ordinal expression of the node p points to (minus off), or None"""
        if st.eq(add(sub(p, atom("np")), const(-off))): return atom("no")
        if st.get("pp") and st.eq(add(sub(p, atom("pp")), const(-off))): return add(atom("no"), const(-1))
        return None

# -- array of fragments ------------------------------------------------------------------------------
class FragArray:
    def __init__(self, R, u):
        self.R = R; self.u = u
        m = members(u, FA)
        vec = [e["off"] for e in m.values() if "vector" in e["t"]]
        if len(vec) != 1: raise Broken("%s: fragments are not one vector" % FA)
        self.vec = vec[0]
        ints = {n: e["off"] for n, e in m.items() if e["t"] == "int"}
        self.idx = ints.get("fragment_index_"); self.pos = ints.get("position_")
        if self.idx is None or self.pos is None: raise Broken("%s: index and position fields not found" % FA)
        self.b = cell(0, self.vec); self.e = cell(0, self.vec + 8)
        self.ci = cell(0, self.idx); self.cp = cell(0, self.pos)
    def m(self, n): return one(self.u, FA + "::" + n)
    def pre(self, st):
        st.poly.add_eq(sub(sub(atom(self.e), atom(self.b)), scale(atom("sz"), 16)))
        st.assign("i0", atom(self.ci)); st.assign("p0", atom(self.cp))
        for g in ("sz", "i0", "p0"): st.poly.add_ge(atom(g))
        st.poly.add_ge(sub(atom("sz"), atom("i0")))
    def num(self, rule):
        f = self.m("num_fragments")
        def on_ret(st, i, r):
            if st.checking:
                self.R.saw("exits")
                self.R.ob(rule, f.q, st.eq(sub(r, sub(atom("sz"), atom("i0")))), f.loc(i), "the count is not the number of fragments left; facts: " + facts(st))
        Mem(f, init=self.pre, on_ret=on_ret).run()
    def each(self, rule):
        f = self.m("ForEachFragment")
        ob = lambda i, c, m: self.R.ob(rule, f.q, c, f.loc(i), m)
        A = Asks(ob)
        def init(st): self.pre(st); A.init(st); st.assign("b0", atom(self.b))
        elem = lambda: add(atom("b0"), add(atom("i0"), atom("k")), 16)
        def on_load(st, i):
            e = st.lin(i.ops[0])
            if i.ty == "ptr" and st.eq(sub(e, elem())): st.assign("fd", st.ai.v.lin(i.id)); st.set("d", 1); return True
            if st.eq(add(sub(e, elem()), const(-8))): st.assign("fs", st.ai.v.lin(i.id)); st.set("s", 1); return True
        def on_call(st, i, c):
            if not A.is_callback(st, i): return
            A.target(st, i)
            if st.checking:
                self.R.saw("callbacks")
                first = st.eq(atom("k")); later = st.ge(add(atom("k"), const(-1)))
                off = atom("p0") if first else {}
                ob(i, first or later, "cannot tell the first fragment from later ones")
                ob(i, st.get("d") == 1 and st.eq(sub(st.lin(i.ops[1]), add(atom("fd"), off))), "the address is not the next fragment's unread part; facts: " + facts(st))
                ob(i, st.get("s") == 1 and st.eq(sub(st.lin(i.ops[2]), sub(atom("fs"), off))), "the size is not that of the next fragment's unread part")
                ob(i, st.ge(add(sub(sub(atom("sz"), atom("i0")), atom("k")), const(-1))), "a fragment past the end is offered")
            A.ask(st, i)
            st.set("d", 0); st.set("s", 0)
            return True
        done = lambda p: p.entails_eq(sub(sub(atom("sz"), atom("i0")), atom("k")))
        m = Mem(f, init=init, on_call=on_call, on_load=on_load, edge_hook=lambda st, b, s, k: A.edge(st),
            on_ret=lambda st, i, r: (self.R.saw("exits") if st.checking else None, A.ret(st, i, r, done)))
        m.ai.templates = [atom("k"), add(atom("k"), const(-1)), sub(sub(atom("sz"), atom("i0")), atom("k"))]
        m.run()
    def seek(self, rule):
        f = self.m("Seek")
        ob = lambda i, c, m: self.R.ob(rule, f.q, c, f.loc(i), m)
        def init(st):
            self.pre(st)
            st.poly.add_ge(atom(arg(1))); st.poly.add_ge(atom(arg(2))); st.poly.add_ge(add(sub(sub(atom("sz"), atom("i0")), atom(arg(1))), const(-1)))
            st.assign("b0", atom(self.b)); st.assign("e0", atom(self.e))
        def on_ret(st, i, r):
            if not st.checking: return
            self.R.saw("exits")
            ob(i, st.eq(sub(atom(self.ci), add(atom("i0"), atom(arg(1))))), "the position moves to another fragment than the one asked for; facts: " + facts(st))
            post_position(st, ob, i, self.cp, "p0", arg(1), arg(2))
            ob(i, st.eq(sub(atom(self.b), atom("b0"))) and st.eq(sub(atom(self.e), atom("e0"))), "the fragments themselves are changed")
        Mem(f, init=init, on_ret=on_ret).run()
    def vec_call(self, st, i, c):
        """vector::clear and assignment: the elements are replaced"""
        n = cname(self.u, i)
        if n.endswith(("vector::clear", "vector::_M_erase_at_end")) and st.eq(sub(st.lin(i.ops[0]), atom(arg(0), ) if False else add(atom(arg(0)), const(self.vec)))):
            st.assign(self.e, atom(self.b)); return True
        if n.startswith("std::vector::"):
            for x in (self.b, self.e): st.havoc(x)
            st.assign("sz", atom("sz2")) if False else st.havoc("sz")
            st.poly.add_eq(sub(sub(atom(self.e), atom(self.b)), scale(atom("sz"), 16)))
            st.set("replaced", 1)
            return True
    def clear(self, rule):
        f = self.m("Clear")
        ob = lambda i, c, m: self.R.ob(rule, f.q, c, f.loc(i), m)
        def on_ret(st, i, r):
            if not st.checking: return
            self.R.saw("exits")
            ob(i, st.eq(sub(sub(atom(self.e), atom(self.b)), scale(atom(self.ci), 16))), "fragments are left after clearing; facts: " + facts(st))
            ob(i, st.eq(atom(self.cp)), "an offset into a fragment is left after clearing")
        Mem(f, init=self.pre, on_call=self.vec_call, on_ret=on_ret).run()
    def assign(self, rule):
        for f in self.u.byq.get(FA + "::operator=", []):
            if len(f.args) < 2 or f.is_decl: continue
            if not any("initializer_list" in (f.demangled or "") for _ in (0,)): continue
            ob = lambda i, c, m: self.R.ob(rule, f.q, c, f.loc(i), m)
            def on_ret(st, i, r):
                if not st.checking: return
                self.R.saw("exits")
                ob(i, st.get("replaced") == 1, "the fragments are not replaced")
                ob(i, st.eq(atom(self.ci)), "after assigning fragments the stream does not start at the first one")
                ob(i, st.eq(atom(self.cp)), "after assigning fragments the stream does not start at the beginning")
            Mem(f, init=lambda st: (self.pre(st), st.set("replaced", 0)), on_call=self.vec_call, on_ret=on_ret).run()

def post_position(st, ob, i, cp, p0, a1, a2):
    """the offset after repositioning: relative within the same fragment, absolute in another one"""
    for eqs, ges, want, msg in (((atom(a1),), (), add(atom(p0), atom(a2)), "repositioning within a fragment does not advance by the offset asked for"),
                                ((), (add(atom(a1), const(-1)),), atom(a2), "repositioning to a later fragment does not land at the offset asked for")):
        p = st.poly.copy()
        for e in eqs: p.add_eq(e)
        for e in ges: p.add_ge(e)
        if p.bot or not p.feasible(): continue
        ob(i, p.entails_eq(sub(atom(cp), want)), msg + "; facts: " + facts(st))

# -- chain of blocks ----------------------------------------------------------------------------------
class Chained:
    def __init__(self, R, u):
        self.R = R; self.u = u
        m = members(u, CS); b = members(u, CS + "::Block")
        g = lambda n, mm=m: mm[n]["off"] if n in mm else self.lost(n)
        self.nblocks = cell(0, g("num_blocks_")); self.bytes = cell(0, g("num_bytes_written_")); self.cpos = cell(0, g("current_block_position_"))
        self.cur = cell(0, g("current_block_")); self.fi = cell(0, g("fragment_index_")); self.fp = cell(0, g("fragment_position_"))
        self.head = g("head_"); self.next = g("next", b); self.size = g("size", b); self.data = g("data", b)
        t = b["data"]["t"]; mm = re.search(r"array<char, (\d+)", t)
        if not mm: raise Broken("%s: block storage is not a character array" % CS)
        self.cap = int(mm.group(1))
        self.blk = m["head_"]["size"] if "size" in m["head_"] else None
    def lost(self, n): raise Broken("%s: field %s not found" % (CS, n))
    def m(self, n): return one(self.u, CS + "::" + n)
    def pre(self, st):
        for g, c in (("n0", self.nblocks), ("w0", self.bytes), ("i0", self.fi), ("p0", self.fp), ("c0", self.cur), ("cp0", self.cpos)):
            st.assign(g, atom(c))
        for g in ("n0", "w0", "i0", "p0", "cp0"): st.poly.add_ge(atom(g))
        st.poly.add_ge(sub(atom("n0"), atom("i0")))
    CASES = {"nothing written": lambda s, st: (st.poly.add_eq(atom("w0")),), "written": lambda s, st: (st.poly.add_ge(add(atom("w0"), const(-1))), st.poly.add_ge(add(sub(atom("n0"), atom("i0")), const(-1))), st.poly.add_ne(atom("c0")))}
    def num(self, rule):
        f = self.m("segment_num_fragments")
        for case, assume in self.CASES.items():
            def on_ret(st, i, r):
                if not st.checking: return
                self.R.saw("exits")
                want = {} if case != "written" else sub(atom("n0"), atom("i0"))
                self.R.ob(rule, f.q + ", " + case, st.eq(sub(r, want)), f.loc(i), "the count is not the number of blocks left; facts: " + facts(st))
            Mem(f, init=lambda st: (self.pre(st), assume(self, st)), on_ret=on_ret).run()
    def each(self, rule):
        f = self.m("SegmentForEachFragment")
        for case, assume in self.CASES.items():
            ob = lambda i, c, m: self.R.ob(rule, f.q + ", " + case, c, f.loc(i), m)
            A = Asks(ob); N = Nodes(self.next)
            def init(st): self.pre(st); assume(self, st); A.init(st); N.init(st, atom("c0"))
            def on_load(st, i):
                e = st.lin(i.ops[0])
                if i.ty == "ptr" and N.load(st, i): return True
                for g in ("np", "pp"):
                    if g == "pp" and not st.get("pp"): continue
                    if st.eq(add(sub(e, atom(g)), const(-self.size))):
                        st.assign("sz" + g, st.ai.v.lin(i.id)); st.assign("at" + g, atom(g)); return True
            def on_call(st, i, c):
                if not A.is_callback(st, i): return
                A.target(st, i)
                if st.checking:
                    self.R.saw("callbacks")
                    ob(i, case == "written", "a fragment is offered although nothing was written")
                    first = st.eq(atom("k")); later = st.ge(add(atom("k"), const(-1)))
                    ob(i, first or later, "cannot tell the first fragment from later ones")
                    off = atom("p0") if first else {}
                    d = sub(st.lin(i.ops[1]), off)
                    o = N.which(st, d, self.data)
                    ob(i, o is not None and st.eq(sub(o, atom("k"))), "the address is not the next block's unread part; facts: " + facts(st))
                    good = any(st.eq(sub(st.lin(i.ops[2]), sub(atom("sz" + g), off))) and st.eq(add(sub(d, atom("at" + g)), const(-self.data))) for g in ("np", "pp"))
                    ob(i, good, "the size is not that of the next block's unread part; facts: " + facts(st))
                A.ask(st, i)
                return True
            if case == "written": done = lambda p: p.entails_eq(atom("np")) and p.entails_eq(sub(atom("no"), atom("k")))
            else: done = lambda p: True
            mm = Mem(f, init=init, on_call=on_call, on_load=on_load, edge_hook=lambda st, b, s, k: A.edge(st),
                on_ret=lambda st, i, r: (self.R.saw("exits") if st.checking else None, A.ret(st, i, r, done)))
            mm.ai.templates = [atom("k"), add(atom("k"), const(-1))]
            mm.run()
    def seek(self, rule):
        f = self.m("SegmentSeek")
        ob = lambda i, c, m: self.R.ob(rule, f.q, c, f.loc(i), m)
        N = Nodes(self.next)
        def init(st):
            self.pre(st); self.CASES["written"](self, st); N.init(st, atom("c0"))
            st.poly.add_ge(atom(arg(1))); st.poly.add_ge(atom(arg(2))); st.poly.add_ge(add(sub(sub(atom("n0"), atom("i0")), atom(arg(1))), const(-1)))
        def on_load(st, i):
            if i.ty == "ptr" and N.load(st, i): return True
        def on_ret(st, i, r):
            if not st.checking: return
            self.R.saw("exits")
            ob(i, st.eq(sub(atom(self.fi), add(atom("i0"), atom(arg(1))))), "the position moves to another fragment than the one asked for")
            post_position(st, ob, i, self.fp, "p0", arg(1), arg(2))
            o = N.which(st, atom(self.cur))
            ob(i, o is not None and st.eq(sub(o, atom(arg(1)))), "the block read next is not the one asked for; facts: " + facts(st))
            ob(i, st.eq(sub(atom(self.nblocks), atom("n0"))) and st.eq(sub(atom(self.bytes), atom("w0"))), "repositioning changes what was written")
        m = Mem(f, init=init, on_load=on_load, on_ret=on_ret)
        m.ai.templates = [atom("no"), sub(atom(arg(1)), atom("no"))]
        m.run()
    def clear(self, rule):
        f = self.m("SegmentClear")
        def on_ret(st, i, r):
            if not st.checking: return
            self.R.saw("exits")
            self.R.ob(rule, f.q, st.eq(atom(self.bytes)) or False, f.loc(i), "fragments are left after clearing; facts: " + facts(st))
            self.R.ob(rule, f.q, st.eq(atom(self.fp)) and st.eq(sub(atom(self.nblocks), atom(self.fi))), f.loc(i), "an old position is left after clearing")
        Mem(f, init=self.pre, on_ret=on_ret).run()
    def output(self, rn, rb, rc):
        f = self.m("Next")
        ob = lambda i, c, m: self.R.ob(rn, f.q, c, f.loc(i), m)
        def init(st):
            self.pre(st)
            st.poly.add_ge(sub(const(self.cap), atom("cp0")))
            st.poly.add_ne(atom("c0")); st.poly.add_ge(add(atom("n0"), const(-1)))
            st.poly.add_eq(atom(mvar(self.cur, self.next)))       # the current block is the last one
            st.set("new", 0)
        def on_call(st, i, c):
            if re.match(r"_Zn[wa]m", c):
                st.set("new", min(2, st.get("new") + 1)); st.assign("nb", st.ai.v.lin(i.id)); st.poly.add_ne(st.ai.v.lin(i.id)); return True
            if c.startswith("_ZNKSt14default_delete"):
                if st.checking: ob(i, False, "a block that was written is destroyed")
                return True
        def on_ret(st, i, r):
            if not st.checking: return
            self.R.saw("exits")
            d, n = atom(mvar(arg(1), 0)), atom(mvar(arg(2), 0))
            ob(i, st.eq(add(r, const(-1))), "no room is reported")
            cur = atom(self.cur)
            ob(i, st.eq(sub(atom(self.bytes), add(atom("w0"), n))), "the byte count does not grow by the room handed out; facts: " + facts(st))
            ob(i, st.eq(add(atom(self.cpos), const(-self.cap))), "the block's room is not accounted as used up")
            sc = M.loc(st, add(cur, const(self.size)))
            ob(i, sc is not None and st.eq(add(atom(sc), const(-self.cap))), "the block's size does not include the room handed out; facts: " + facts(st))
            ob(i, st.ge(add(n, const(-1))), "no room is handed out")
            if st.get("new") == 0:
                ob(i, st.eq(sub(cur, atom("c0"))), "the block written to changes without a new block")
                ob(i, st.eq(sub(d, add(add(atom("c0"), const(self.data)), atom("cp0")))), "the room does not start behind what was written to the block; facts: " + facts(st))
                ob(i, st.eq(sub(n, sub(const(self.cap), atom("cp0")))), "the room handed out is not the rest of the block; facts: " + facts(st))
                ob(i, st.eq(sub(atom(self.nblocks), atom("n0"))), "blocks are counted that do not exist")
            else:
                ob(i, st.get("new") == 1, "more than one block is added")
                ob(i, st.eq(add(atom("cp0"), const(-self.cap))), "a new block is started although the current one is not full")
                ob(i, st.eq(sub(cur, atom("nb"))), "the new block does not become the current one")
                p = st.poly
                ob(i, p.entails_eq(sub(atom(mvar("nbl", 0)), {})) if False else st.get("linked") == 1, "the new block is not linked behind the previous one")
                ob(i, st.eq(atom(mvar(self.cur, self.next))) or st.get("nullnext") == 1, "the new block's link is not empty")
                ob(i, st.eq(sub(d, add(atom("nb"), const(self.data)))), "the room is not the new block's storage")
                ob(i, st.eq(add(n, const(-self.cap))), "the room handed out is not the new block's storage")
                ob(i, st.eq(sub(atom(self.nblocks), add(atom("n0"), const(1)))), "the new block is not counted")
        def on_store(st, i):
            if i.op != "store": return
            e = st.lin(i.ops[1])
            if st.get("new") and st.eq(add(sub(e, atom("c0")), const(-self.next))): st.set("linked", 1 if st.eq(sub(st.lin(i.ops[0]), atom("nb"))) else 2)
            if st.get("new") and st.eq(add(sub(e, atom("nb")), const(-self.next))): st.set("nullnext", 1 if st.eq(st.lin(i.ops[0])) else 2)
        M = Mem(f, init=init, on_call=on_call, on_ret=on_ret, on_store=on_store); M.run()
        f2 = self.m("BackUp")
        ob2 = lambda i, c, m: self.R.ob(rb, f2.q, c, f2.loc(i), m)
        def init2(st):
            # bytes are given back after Next or another BackUp, which both leave the block filled up to the write position
            self.pre(st); st.poly.add_eq(sub(atom(mvar(self.cur, self.size)), atom("cp0"))); st.assign("s0", atom("cp0"))
        def on_ret2(st, i, r):
            if not st.checking: return
            self.R.saw("exits")
            for c, g, what in ((self.bytes, "w0", "byte count"), (self.cpos, "cp0", "write position"), (mvar(self.cur, self.size), "s0", "block's size")):
                ob2(i, st.eq(sub(atom(c), sub(atom(g), atom(arg(1))))), "the %s is not reduced by the bytes given back; facts: %s" % (what, facts(st)))
            ob2(i, st.eq(sub(atom(self.nblocks), atom("n0"))) and st.eq(sub(atom(self.cur), atom("c0"))), "giving back bytes changes the blocks")
        Mem(f2, init=init2, on_ret=on_ret2).run()
        f3 = self.m("CloseOutput")
        ob3 = lambda i, c, m: self.R.ob(rc, f3.q, c, f3.loc(i), m)
        def on_ret3(st, i, r):
            if not st.checking: return
            self.R.saw("exits")
            ob3(i, st.eq(sub(atom(self.cur), add(atom(arg(0)), const(self.head)))), "reading does not start at the first block")
            for c, g in ((self.nblocks, "n0"), (self.bytes, "w0"), (self.fi, "i0"), (self.fp, "p0")):
                ob3(i, st.eq(sub(atom(c), atom(g))), "closing the output changes what was written or where reading starts")
        Mem(f3, init=self.pre, on_ret=on_ret3).run()
        f4 = self.m("ByteCount")
        def on_ret4(st, i, r):
            if st.checking: self.R.ob(rb, f4.q, st.eq(sub(r, atom("w0"))), f4.loc(i), "the byte count is not what was written")
        Mem(f4, init=self.pre, on_ret=on_ret4).run()
        ctors = [x for x in self.u.byq.get(CS + "::ChainedStream", []) if not x.is_decl]
        if not ctors: raise Broken("constructor of %s not found" % CS)
        def on_ret5(st, i, r):
            if not st.checking: return
            self.R.saw("exits")
            o = lambda c, m: self.R.ob(rc, ctors[0].q, c, ctors[0].loc(i), m)
            o(st.eq(add(atom(self.nblocks), const(-1))), "a new stream does not consist of one block")
            for c in (self.bytes, self.cpos, self.fi, self.fp): o(st.eq(atom(c)), "a new stream does not start empty at its beginning")
            o(st.eq(sub(atom(self.cur), add(atom(arg(0)), const(self.head)))), "a new stream does not write to its first block")
            o(st.eq(atom(cell(0, self.head + self.next))), "the first block of a new stream has a successor")
        Mem(ctors[0], on_ret=on_ret5).run()

# -- list of streams ------------------------------------------------------------------------------------
class Composite:
    def __init__(self, R, u):
        self.R = R; self.u = u
        m = members(u, CO)
        nx = [e["off"] for e in m.values() if "unique_ptr" in e["t"]]
        ls = [e["off"] for e in m.values() if e["t"].startswith("*") and "ComposableFragmentInputStream" in e["t"]]
        if len(nx) != 1 or len(ls) != 1: raise Broken("%s: links not recognised" % CO)
        self.next, self.last = nx[0], ls[0]
        from checks.streams import slot_of
        self.s = {n: slot_of(CO, n) for n in ("segment_num_fragments", "SegmentForEachFragment", "SegmentClear", "SegmentSeek")}
    def m(self, n): return one(self.u, CO + "::" + n)
    def target(self, i, c):
        """virtual call, or a direct call of an override"""
        for n, s in self.s.items():
            if c == s or cname(self.u, i).split("::")[-1] == n: return n
        return None
    def walk(self, f, rule, on_seg, extra_init=None, edge=None, on_ret=None, templates=(), rest=None):
        """rest: what the function does, asked of the remaining streams (recursion; by induction on their number)"""
        N = Nodes(self.next)
        from checks.streams import slot_of
        own = f.q.split("::")[-1]
        slots = [slot_of(k, own) for k in ("lightstep::FragmentInputStream", CO)]
        ob = lambda i, c, m: self.R.ob(rule, f.q, c, f.loc(i), m)
        def init(st):
            N.init(st, atom(arg(0))); st.poly.add_ne(atom(arg(0))); st.assign("done", {})
            st.set("cnt", 0); st.set("clr", 0)
            if extra_init: extra_init(st)
        def on_load(st, i):
            if i.ty == "ptr" and N.load(st, i): return True
        def on_call(st, i, c):
            t = self.target(i, c)
            if t is None:
                if rest is None or not (c in slots or cname(self.u, i) == f.q): return
                o = N.which(st, st.lin(i.ops[0]))
                if st.checking:
                    ob(i, o is not None and st.eq(sub(o, atom("done"))) and st.ge(add(o, const(-1))), "the streams left are not asked next; facts: " + facts(st))
                rest(st, i, ob)
                st.assign("np", {}); st.assign("no", atom("done")); st.set("pp", 0)
                return True
            o = N.which(st, st.lin(i.ops[0]))
            if st.checking: self.R.saw("segment calls")
            on_seg(st, i, t, o, ob)
            return True
        m = Mem(f, init=init, on_call=on_call, on_load=on_load, on_ret=(lambda st, i, r: on_ret(st, i, r, ob, N)) if on_ret else None,
            edge_hook=(lambda st, b, s, k: edge(st)) if edge else None)
        m.ai.templates = [atom("no"), atom("done"), sub(atom("no"), atom("done"))] + list(templates)
        m.run()
    def num(self, rule):
        f = self.m("num_fragments")
        def seg(st, i, t, o, ob):
            if st.checking: ob(i, t == "segment_num_fragments" and o is not None and st.eq(sub(o, atom("done"))), "the streams are not counted one after another, each once; facts: " + facts(st))
            st.poly.add_ge(st.ai.v.lin(i.id))
            st.assign("sum", add(atom("sum"), st.ai.v.lin(i.id))); st.assign("done", add(atom("done"), const(1)))
        def ret(st, i, r, ob, N):
            if not st.checking: return
            self.R.saw("exits")
            ob(i, st.eq(sub(r, atom("sum"))), "the count is not the sum of the streams' counts")
            ob(i, st.eq(atom("np")) and st.eq(sub(atom("no"), atom("done"))), "a stream is not counted")
        def rest(st, i, ob): st.assign("sum", add(atom("sum"), st.ai.v.lin(i.id)))
        self.walk(f, rule, seg, lambda st: st.assign("sum", {}), on_ret=ret, rest=rest)
    def each(self, rule):
        f = self.m("ForEachFragment")
        A = Asks(lambda i, c, m: self.R.ob(rule, f.q, c, f.loc(i), m))
        def seg(st, i, t, o, ob):
            if t == "segment_num_fragments":
                r = st.ai.v.lin(i.id); st.poly.add_ge(r)
                if o is not None and st.eq(sub(o, atom("done"))): st.assign("n", r); st.set("cnt", 1)
                return
            if st.checking and t != "SegmentForEachFragment": ob(i, False, "iterating moves or clears a stream"); return
            if st.checking:
                ob(i, t == "SegmentForEachFragment" and o is not None and st.eq(sub(o, atom("done"))), "the streams are not iterated one after another, each once; facts: " + facts(st))
                ob(i, st.eq(sub(st.lin(i.ops[1]), atom(arg(1)))) and st.eq(sub(st.lin(i.ops[2]), atom(arg(2)))), "fragments go to another callback than the one given")
            A.ask(st, i); st.assign("done", add(atom("done"), const(1)))
        done = lambda p: p.entails_eq(atom("np")) and p.entails_eq(sub(atom("no"), atom("done")))
        def edge(st):
            # a stream that has no fragments may be passed over
            if st.get("cnt") and st.eq(atom("n")): st.assign("done", add(atom("done"), const(1))); st.set("cnt", 0)
            A.edge(st)
        def rest(st, i, ob):
            if st.checking: ob(i, st.eq(sub(st.lin(i.ops[1]), atom(arg(1)))) and st.eq(sub(st.lin(i.ops[2]), atom(arg(2)))), "fragments go to another callback than the one given")
            A.ask(st, i)
        self.walk(f, rule, seg, A.init, edge=edge, on_ret=lambda st, i, r, ob, N: (self.R.saw("exits") if st.checking else None, A.ret(st, i, r, done, "a stream is left out")), rest=rest)
    def clear(self, rule):
        f = self.m("Clear")
        def seg(st, i, t, o, ob):
            if t == "segment_num_fragments": return
            if st.checking: ob(i, t == "SegmentClear" and o is not None and st.eq(sub(o, atom("done"))), "the streams are not cleared one after another")
            st.assign("done", add(atom("done"), const(1)))
        def ret(st, i, r, ob, N):
            if not st.checking: return
            self.R.saw("exits")
            ob(i, st.eq(atom("np")) and st.eq(sub(atom("no"), atom("done"))), "a stream is not cleared")
        self.walk(f, rule, seg, on_ret=ret, rest=lambda st, i, ob: None)
    def seek(self, rule):
        f = self.m("Seek")
        def init(st):
            st.assign("rem", atom(arg(1))); st.poly.add_ge(atom(arg(1))); st.poly.add_ge(atom(arg(2))); st.set("sought", 0)
        def seg(st, i, t, o, ob):
            if t == "segment_num_fragments":
                if st.checking: ob(i, o is not None and st.eq(sub(o, atom("done"))), "fragments of another stream than the next one are counted; facts: " + facts(st))
                r = st.ai.v.lin(i.id); st.poly.add_ge(r)
                if st.get("cnt"): st.poly.add_eq(sub(r, atom("n")))
                else: st.assign("n", r); st.set("cnt", 1)
            elif t == "SegmentClear":
                if st.checking:
                    ob(i, o is not None and st.eq(sub(o, atom("done"))), "another stream than the next one is cleared")
                    ob(i, st.get("cnt") == 1 and st.ge(sub(atom("rem"), atom("n"))), "a stream is cleared that was not passed completely; facts: " + facts(st))
                    ob(i, st.get("sought") == 0, "streams behind the position are cleared")
                st.assign("rem", sub(atom("rem"), atom("n"))) if st.get("cnt") else st.havoc("rem")
                st.assign("done", add(atom("done"), const(1))); st.set("cnt", 0)
            elif t == "SegmentSeek":
                if st.checking:
                    ob(i, o is not None and st.eq(sub(o, atom("done"))), "another stream than the next one is repositioned")
                    ob(i, st.get("cnt") == 1 and st.ge(add(sub(atom("n"), atom("rem")), const(-1))), "a stream is repositioned past its end")
                    ob(i, st.eq(sub(st.lin(i.ops[1]), atom("rem"))), "the fragment index is not reduced by the fragments of the streams passed; facts: " + facts(st))
                    ob(i, st.eq(sub(st.lin(i.ops[2]), atom(arg(2)))), "the offset is not the one asked for")
                    ob(i, st.get("sought") == 0, "two streams are repositioned")
                st.set("sought", 1)
            else:
                if st.checking: ob(i, False, "repositioning iterates the fragments")
        def ret(st, i, r, ob, N):
            if not st.checking: return
            self.R.saw("exits")
            ob(i, st.get("sought") == 1 or (st.eq(atom("np")) and st.eq(sub(atom("no"), atom("done")))), "the search for the position ends early; facts: " + facts(st))
        self.walk(f, rule, seg, init, on_ret=ret)
    def append(self, rule):
        f = self.m("Append")
        ob = lambda i, c, m: self.R.ob(rule, f.q, c, f.loc(i), m)
        nx, ls, own = cell(0, self.next), cell(0, self.last), mvar(arg(1), 0)
        for case in ("first", "further"):
            def init(st):
                st.assign("s", atom(own)); st.poly.add_ne(atom("s")); st.assign("x0", atom(nx)); st.assign("l0", atom(ls)); st.set("app", 0)
                if case == "first": st.poly.add_eq(atom("x0"))
                else: st.poly.add_ne(atom("x0")); st.poly.add_ne(atom("l0"))
            def on_call(st, i, c):
                if cname(self.u, i) == CO + "::Append":
                    if st.checking:
                        ob(i, st.get("app") == 0, "the stream is appended twice")
                        ob(i, case == "further" and st.eq(sub(st.lin(i.ops[0]), atom("l0"))), "the stream is appended to another than the last one; facts: " + facts(st))
                        ob(i, (st.eq(sub(st.lin(i.ops[1]), atom(arg(1)))) and st.eq(sub(atom(own), atom("s")))) or st.eq(sub(atom(mvar_of(st, i, 1)), atom("s"))), "something else than the given stream is appended")
                    st.set("app", min(2, st.get("app") + 1)); st.assign(own, {})
                    return True
                if c.startswith("_ZNKSt14default_delete"):
                    if st.checking: ob(i, False, "a stream already appended is destroyed")
                    return True
            def mvar_of(st, i, k):
                l = m.ptr(st, i.ops[k])
                return l if l is not None else ("m", "nowhere", 0)
            def on_ret(st, i, r):
                if not st.checking: return
                self.R.saw("exits")
                if case == "first":
                    ob(i, st.eq(sub(atom(nx), atom("s"))), "the stream is not linked behind the first one; facts: " + facts(st))
                    ob(i, st.eq(atom(own)), "the stream has two owners")
                else:
                    ob(i, st.eq(sub(atom(nx), atom("x0"))), "streams appended before are unlinked")
                    ob(i, st.get("app") == 1, "the stream is not appended")
                ob(i, st.eq(sub(atom(ls), atom("s"))), "the last stream is not remembered; facts: " + facts(st))
            m = Mem(f, init=init, on_call=on_call, on_ret=on_ret); m.run()

"""Consumers of the fragment-stream interface: repositioning after a partial write, and the vectored write itself.
Every virtual iteration is replaced by a model stream (an arbitrary sequence of fragments, models/streams.cpp), so the
callbacks are analysed in place, for every number, size and order of fragments."""
from lib import *
from contract import *
import ir

FIS = "lightstep::FragmentInputStream"

def short_name(f):
    if f.dname: return f.dname
    return ir.demangled_qname(re.sub(r"^(non-)?virtual thunk to ", "", f.demangled)).split("::")[-1]

def slot_of(cls, method):
    """offset of a virtual method in the interface's table"""
    p = ir.program()
    mang = "_ZTSN" + "".join("%d%s" % (len(x), x) for x in cls.split("::")) + "E"
    for off, fns in p.vtables().get(mang, {}).items():
        if any(short_name(p.fns[n]) == method for n in fns if n in p.fns): return "vcall$%s$%d" % (mang, off)
    raise Broken("virtual method %s::%s not found" % (cls, method))

def fis(method): return slot_of(FIS, method)

def stream_view(name, roots, barriers=(), chain=False):
    reps = [(fis("ForEachFragment"), "verif::stream_foreach")]
    reps.append(("lightstep::ComposableFragmentInputStream::ForEachFragment", "verif::stream_foreach"))
    if chain: reps.append((slot_of("lightstep::BufferChain", "ForEachFragment"), "verif::chain_foreach"))
    return ir.view(name, roots, barriers, (), reps)

class ListWalk:
    """position in the initializer_list being walked: ghosts pos (next list cell), la/lv (last cell read and its value), cur"""
    def __init__(self, base, count, ob):
        self.base = base; self.count = count; self.ob = ob
    def init(self, st):
        st.poly.add_ge(self.count); st.assign("pos", self.base)
        st.poly.add_eq(sub(atom("end"), add(self.base, self.count, 8)))
        st.assign("la", {}); st.set("in", 0)
    def load(self, st, i):
        if i.ty == "ptr":
            st.assign("la", st.lin(i.ops[0])); st.assign("lv", st.ai.v.lin(i.id))
    def visit(self, st, i, s):
        """fragments of stream s are about to be requested"""
        if st.get("in") == 0:
            if st.checking:
                self.ob(i, st.eq(sub(s, atom("lv"))) and st.eq(sub(atom("la"), atom("pos"))), "the streams are not visited one after another in the order given")
                self.ob(i, st.ne(sub(atom("pos"), atom("end"))), "a stream past the end of the list may be visited")
            st.set("in", 1); st.assign("cur", s)
        elif st.checking:
            self.ob(i, st.eq(sub(s, atom("cur"))), "a stream is visited before the previous one was finished")
    def leave(self, st):
        st.set("in", 0); st.assign("pos", add(atom("pos"), const(8)))

def check_consume(R, rule):
    u = stream_view("consume", ["lightstep::Consume"])
    f = one(u, "lightstep::Consume")
    seek, clear = fis("Seek"), fis("Clear")
    ob = lambda i, c, m: R.ob(rule, f.q, c, f.loc(i), m)
    w = ListWalk(atom(arg(0)), atom(arg(1)), ob)
    def init(st):
        w.init(st); st.assign("rem", atom(arg(2))); st.poly.add_ge(atom("rem")); st.assign("idx", {})
        st.assign("fs", {}); st.set("got", 0); st.set("done", 0)
    def take(st, i):
        """the fragment handed out last was consumed in full"""
        if st.get("got"):
            if st.checking: ob(i, st.ge(sub(atom("rem"), atom("fs"))), "iteration goes on although the fragment was not consumed completely")
            st.assign("rem", sub(atom("rem"), atom("fs"))); st.assign("idx", add(atom("idx"), const(1)))
            st.poly.add_ge(atom("rem"))
            st.set("got", 0)
    def on_call(st, i, c):
        n = cname(u, i)
        if n == "verif::stream_more":
            if st.checking: ob(i, st.get("done") == 0, "a stream is still read after it was repositioned")
            fresh = st.get("in") == 0
            w.visit(st, i, st.lin(i.ops[0]))
            if fresh: st.assign("idx", {})
            take(st, i); st.set("more", 1)
            st.assign("mr", st.ai.v.lin(i.id))
            return True
        if n == "verif::stream_data": return True
        if n == "verif::stream_size":
            e = st.ai.v.lin(i.id); st.poly.add_ge(e); st.assign("fs", e); st.set("got", 1)
            return True
        if c == seek:
            if st.checking:
                ob(i, st.get("got") == 1, "a stream is repositioned although all of it was consumed")
                ob(i, st.ge(add(sub(atom("fs"), atom("rem")), const(-1))), "a stream is repositioned at a fragment that was consumed completely")
                ob(i, st.eq(sub(st.lin(i.ops[0]), atom("cur"))), "another stream than the partially consumed one is repositioned")
                ob(i, st.eq(sub(st.lin(i.ops[1]), atom("idx"))), "the stream is repositioned to a fragment index other than the number of fragments consumed; facts: " + facts(st))
                ob(i, st.eq(sub(st.lin(i.ops[2]), atom("rem"))), "the stream is repositioned to an offset other than the number of bytes left to consume; facts: " + facts(st))
            st.set("done", st.get("done") + 1 if st.get("done") < 2 else 2); st.set("got", 0)
            return True
        if c == clear:
            if st.checking:
                ob(i, st.get("in") == 2 and st.get("got") == 0, "a stream is cleared before all of it was consumed")
                ob(i, st.eq(sub(st.lin(i.ops[0]), atom("cur"))), "another stream than the completely consumed one is cleared")
            w.leave(st)
            return True
    def edge(st, b, s, k):
        if st.get("more"):
            if st.eq(atom("mr")): st.set("more", 0); st.set("in", 2)
            elif st.eq(add(atom("mr"), const(-1))): st.set("more", 0)
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        if st.get("done"):
            ob(i, st.get("done") == 1, "streams are repositioned more than once")
            ob(i, st.eq(r), "true is returned although a stream was not consumed completely")
        else:
            ob(i, st.get("got") == 0, "the partially consumed stream is never repositioned")
            ob(i, st.get("in") == 0, "a completely consumed stream is not cleared")
            ob(i, st.eq(sub(atom("pos"), atom("end"))), "a stream is never visited")
            ob(i, st.eq(add(r, const(-1))), "false is returned although everything was consumed")
    Mem(f, init=init, on_call=on_call, on_load=lambda st, i: w.load(st, i), on_ret=on_ret, edge_hook=edge).run()
    R.saw("functions")

IOV_MAX = 1024
EAGAIN = 11

WRITEV = "lightstep::WriteV"
def check_writev(R, rule):
    """the platform's vectored write hands socket and segments to the system once and gives back its answer"""
    try: f = one(ir.view("writev", [WRITEV], []), WRITEV)
    except Broken: f = None
    if f is None:
        R.ob(rule, WRITEV, True, None, ""); R.saw("functions"); return      # part of the vectored write itself
    ob = lambda i, c, m: R.ob(rule, f.q, c, f.loc(i), m)
    CALLS = ("writev", "sendmsg")
    def init(st): st.set("n", 0)
    def field(st, i, off):
        l = st.lin(i.ops[1]); a = [x for x in l if x != ONE]
        return atom(("m", a[0], off)) if len(a) == 1 and l[a[0]] == 1 and not l.get(ONE) else atom("nothing")
    def on_call(st, i, c):
        if c not in CALLS:
            if c.startswith(("llvm.", "__clang_call_terminate")) or c == "memset": return
            if st.checking: ob(i, False, "something else than the write is called: " + c)
            return
        if st.checking:
            R.saw("system calls")
            ob(i, st.get("n") == 0, "the data is written twice")
            ob(i, st.eq(sub(st.lin(i.ops[0]), atom(arg(0)))), "the data goes to another socket")
            if c == "writev": p, n = st.lin(i.ops[1]), st.lin(i.ops[2])
            else:
                p, n = field(st, i, 16), field(st, i, 24)
                for off, what in ((0, "address"), (32, "control data")):
                    ob(i, st.eq(field(st, i, off)), "the message has an " + what + " that was not asked for; facts: " + facts(st))
            ob(i, st.eq(sub(p, atom(arg(1)))), "the segments are not those given; facts: " + facts(st))
            ob(i, st.eq(sub(n, atom(arg(2)))), "the number of segments is not the one given; facts: " + facts(st))
        st.set("n", 1); st.assign("r", st.ai.v.lin(i.id))
        return True
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        ob(i, st.get("n") == 1, "nothing is written")
        ob(i, st.eq(sub(r, atom("r"))), "the result is not the system's; facts: " + facts(st))
    Mem(f, init=init, on_call=on_call, on_ret=on_ret).run()
    R.saw("functions")

def check_write(R, rb, rs, rp):
    """rb: batches are bounded; rs: every fragment is sent once, in order; rp: repositioning on all exits"""
    u = stream_view("write", ["lightstep::Write"], ["lightstep::Consume", WRITEV])
    f = one(u, "lightstep::Write")
    is_write = lambda i: i.op in ("call", "invoke") and (callee_of(i) == "writev" or cname(u, i) == WRITEV)
    nf = fis("num_fragments")
    o = lambda rule: (lambda i, c, m: R.ob(rule, f.q, c, f.loc(i), m))
    B, S, P = o(rb), o(rs), o(rp)
    w = ListWalk(atom(arg(1)), atom(arg(2)), S)
    v0 = Values(f)
    wv = [i for i in f.all_instrs() if is_write(i)]
    if not wv:
        P(None, False, "nothing is ever written"); return
    eB = v0.op(wv[0].ops[1])
    ab = [a for a in eB if a != ONE]
    cap = None
    if len(ab) == 1 and ab[0] in f.ins:
        d = f.ins[ab[0]]
        if d.op == "alloca":
            if d.d.get("size"): cap = scale(v0.op(d.ops[0]) if d.ops else const(1), d.d["size"])
        elif d.op in ("call", "invoke") and re.match(r"_Zn[wa]m", callee_of(d) or ""): cap = v0.op(d.ops[0])
    if cap is None: raise Broken("%s: storage of the write batch not recognised" % f.q)
    def init(st):
        w.init(st)
        for g in ("pend", "bytes", "sent", "total", "fd", "fs", "r", "bw"): st.assign(g, {})
        for k in ("got", "wr", "cons", "wrote", "eno"): st.set(k, 0)
        st.set("err", -1)
        st.set("ph", 0)
    def commit(st, i):
        if st.get("got"):
            if st.checking: S(i, st.get("got") == 7, "a fragment is not put into the batch (address and length)")
            st.assign("bytes", add(atom("bytes"), atom("fs"))); st.assign("pend", add(atom("pend"), const(1)))
            st.set("got", 0)
    stopped = lambda st: st.get("wr") in (2, 4)
    def on_call(st, i, c):
        n = cname(u, i)
        if c == nf:
            e = st.ai.v.lin(i.id); st.poly.add_ge(e)
            if st.checking: S(i, st.eq(sub(st.lin(i.ops[0]), atom("lv"))), "fragments of something else than the streams given are counted")
            st.assign("total", add(atom("total"), e)); return True
        if n == "verif::stream_more":
            commit(st, i)
            w.visit(st, i, st.lin(i.ops[0])); st.set("more", 1); st.assign("mr", st.ai.v.lin(i.id)); return True
        if n == "verif::stream_data": st.assign("fd", st.ai.v.lin(i.id)); st.set("got", 1); return True
        if n == "verif::stream_size":
            e = st.ai.v.lin(i.id); st.poly.add_ge(e); st.assign("fs", e); return True
        if is_write(i):
            commit(st, i)
            if st.checking:
                R.saw("system calls")
                S(i, not stopped(st) and st.get("wr") == 0 , "more is sent after a write that failed, blocked or was incomplete")
                S(i, st.eq(sub(st.lin(i.ops[0]), atom(arg(0)))), "the data goes to another socket")
                S(i, st.eq(sub(st.lin(i.ops[1]), eB)), "the write does not start at the beginning of the batch")
                S(i, st.eq(sub(st.lin(i.ops[2]), atom("pend"))), "the number of segments written is not the number of fragments collected; facts: " + facts(st))
                B(i, st.ge(sub(const(IOV_MAX), st.lin(i.ops[2]))), "the batch may be larger than the system's limit")
            r = st.ai.v.lin(i.id)
            st.assign("r", r); st.assign("bw", atom("bytes")); st.poly.add_ge(sub(atom("bytes"), r)); st.poly.add_ge(add(r, const(1)))
            st.poly.add_ge(atom("bytes"))
            st.assign("pend", {}); st.assign("bytes", {}); st.set("wr", 1); st.set("wrote", 1); st.set("eno", 0)
            return True
        if c == "__errno_location": st.assign("el", st.ai.v.lin(i.id)); st.set("eno", 1); return True
        if n == "lightstep::Consume":
            commit(st, i)
            if st.checking:
                R.saw("repositionings")
                P(i, st.get("cons") == 0, "the streams are repositioned twice")
                P(i, st.eq(sub(st.lin(i.ops[0]), atom(arg(1)))) and st.eq(sub(st.lin(i.ops[1]), atom(arg(2)))), "other streams than those written are repositioned")
                P(i, st.get("wr") != 1, "the result of the write is not examined")
                P(i, st.eq(sub(st.lin(i.ops[2]), atom("sent"))), "the streams are not advanced by exactly the number of bytes accepted; facts: " + facts(st))
                S(i, stopped(st) or st.eq(atom("bytes")) or st.eq(atom("pend")), "collected fragments are never sent; facts: " + facts(st))
                S(i, stopped(st) or (st.get("in") == 0 and st.eq(sub(atom("pos"), atom("end")))), "a stream is skipped although nothing failed or blocked")
            st.set("cons", 1); st.assign("cres", st.ai.v.lin(i.id))
            return True
        if c == "__cxa_throw":
            if st.checking and st.get("wrote"):
                P(i, st.get("cons") == 1, "the failure is raised before the streams were repositioned")
                P(i, st.get("err") == 1, "an error is raised although no write failed for good")
            st.set("thrown", 1)
    def edge(st, b, s, k):
        if st.get("more"):
            if st.eq(atom("mr")): st.set("more", 0); w.leave(st)
            elif st.eq(add(atom("mr"), const(-1))): st.set("more", 0)
        wr = st.get("wr")
        if wr == 1:
            if st.ge(scale(add(atom("r"), const(1)), -1)): st.set("wr", 2); wr = 2
            elif st.ge(atom("r")): st.assign("sent", add(atom("sent"), atom("r"))); st.set("wr", 3); wr = 3
        if wr == 3:
            d = sub(atom("bw"), atom("r"))
            if st.eq(d): st.set("wr", 0)
            elif st.ge(add(d, const(-1))): st.set("wr", 4)
        if wr == 2 and st.get("eno") == 2 and st.get("err") == -1:
            d = add(atom("eno"), const(-EAGAIN))
            if st.eq(d): st.set("err", 0)
            elif st.ne(d): st.set("err", 1)
    def on_load(st, i):
        w.load(st, i)
        if st.get("eno") == 1 and st.eq(sub(st.lin(i.ops[0]), atom("el"))):
            st.assign("eno", st.ai.v.lin(i.id)); st.set("eno", 2)
            return True
    def on_store(st, i):
        if i.op != "store": return
        e = st.lin(i.ops[1])
        a = [x for x in e if x != ONE]
        if len(a) == 1 and a[0] in f.ins and f.ins[a[0]].op == "alloca" and a[0] not in ab: return
        if len(a) == 1 and isinstance(a[0], str) and a[0].startswith("@"): return
        d = sub(e, eB)
        val = st.lin(i.ops[0])
        want = scale(atom("pend"), 16)
        if st.eq(sub(d, want)):
            if st.checking: S(i, st.eq(sub(val, atom("fd"))), "the address put into the batch is not the fragment's")
            st.set("got", st.get("got") | 2)
        elif st.eq(add(sub(d, want), const(-8))):
            if st.checking: S(i, st.eq(sub(val, atom("fs"))), "the length put into the batch is not the fragment's")
            st.set("got", st.get("got") | 4)
            if st.checking:
                B(i, st.ge(sub(sub(cap, want), const(16))), "an entry may be stored past the end of the batch; facts: " + facts(st))
            if st.get("got") == 7: commit(st, i)
            return True
        elif st.get("wrote") and st.get("cons"): return
        else:
            if st.checking: S(i, False, "the batch is not filled in order; facts: " + facts(st))
            return True
        if st.checking:
            B(i, st.ge(sub(sub(cap, want), const(16))), "an entry may be stored past the end of the batch; facts: " + facts(st))
        return True
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        if st.get("cons"):
            P(i, st.eq(sub(r, atom("cres"))), "the result is not whether everything was consumed")
            P(i, not (st.get("wr") == 2 and st.get("err") != 0), "a failed write is not reported; it is only silent when the socket would block")
        else:
            P(i, not st.get("wrote"), "returning without repositioning the streams")
            P(i, st.eq(atom("total")) and st.eq(add(r, const(-1))), "returning early although there may be something to send")
    def on_unwind(st, i):
        if st.checking: P(i, st.get("cons") == 1 or not st.get("wrote"), "an exception escapes before the streams were repositioned")
    m = Mem(f, init=init, on_call=on_call, on_load=on_load, on_store=on_store, on_ret=on_ret, edge_hook=edge, on_unwind=on_unwind)
    want = scale(atom("pend"), 16)
    m.ai.templates = [sub(cap, want), sub(sub(cap, want), const(16)), sub(const(16 * IOV_MAX), cap), add(cap, const(-1)), atom("pend"), atom("bytes")]
    ends = []
    def cyclic(b):
        seen, w = set(), list(f.succ[b])
        while w:
            x = w.pop()
            if x == b: return True
            if x not in seen: seen.add(x); w += f.succ[x]
        return False
    for g in f.all_instrs():
        if g.op == "getelementptr":
            x = sub(v0.lin(g.id), eB)
            if not is_const(x) and not any(f.ins[a].op == "phi" and cyclic(f.ins[a].blk) for a in x if a in f.ins) and x not in ends and set(ab) & set(v0.lin(g.id)): ends.append(x)
    for x in ends[:3]:
        if x != cap: m.ai.templates += [sub(x, want), sub(sub(x, want), const(16)), sub(cap, x)]
    m.run()
    for d in f.all_instrs():
        if d.op == "alloca" and d.id in ab:
            states = [State(ps, p.copy(), m.ai, False) for ps, polys, _ in m.ai.IN[d.blk].values() for p in polys]
            B(d, all(s.ge(sub(const(16 * IOV_MAX), cap)) for s in states), "the stack storage of a batch is not bounded")
            R.saw("allocations")
    R.assume("the vectored write accepts between 0 and the submitted number of bytes, or returns -1; sizes and counts of fragments are not negative")
    R.saw("functions")

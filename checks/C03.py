"""Contracts of the stream of finished spans, decided by abstract interpretation of its methods compiled against
stand-ins for the ring buffer (whose own behaviour is the subject of other rules): any number of spans, any number of
fragments per span, any position a partial write can stop at."""
from lib import *
from contract import *
import ir

RULES = {
    "allot": "allotting takes everything finished so far, once, from the ring buffer",
    "iterate": "the fragments offered are those of the allotted spans, each span once, oldest first, until the callback declines",
    "count": "num_fragments is the sum over the allotted spans",
    "release": "exactly the spans whose first byte was sent leave the ring buffer",
    "complete-spans": "completely sent spans are destroyed once and their slots left empty",
    "remnant": "a partly sent span is kept, positioned at its first unsent byte, and its slot left empty",
    "sent-count": "exactly the completely sent spans are counted as sent, once",
    "no-stale-allotment": "released spans are no longer part of the allotment",
    "handoff": "taking the remnant empties the stream's own reference and returns it",
}
SRC = ["src/recorder/stream_recorder/span_stream.cpp"]

class Span:
    def __init__(self, R):
        self.R = R
        self.u = u = ir.view("spanstream", [r"lightstep::SpanStream::[^:]*"], shadow=SRC)
        self.m = lambda n: one(u, "lightstep::SpanStream::" + n)
        rec = [r for r in u.records if r["q"] == "lightstep::SpanStream"]
        if not rec: raise Broken("class SpanStream not found")
        mem = [e for e in rec[0]["els"] if e["k"] == "DW_TAG_member" and not e.get("static")]
        rng = [e["off"] for e in mem if "CircularBufferRange" in e["t"]]
        if len(rng) != 1: raise Broken("SpanStream: the allotted range is not one field")
        self.rng = rng[0]
        rem = [e["off"] for e in mem if "unique_ptr" in e["t"] and "ChainedStream" in e["t"]]
        if len(rem) != 1: raise Broken("SpanStream: the remnant is not one field")
        self.rem = rem[0]
        self.size = cell(0, self.rng + 8)

NF = "lightstep::ComposableFragmentInputStream::num_fragments"
FE = "lightstep::ComposableFragmentInputStream::ForEachFragment"
SK = "lightstep::ComposableFragmentInputStream::Seek"

class Walk:
    """element events of the stand-ins, common to all methods"""
    def __init__(self, S, f, mode):
        self.S = S; self.R = S.R; self.f = f; self.mode = mode; self.u = S.u
    def ob(self, rule, i, c, m): self.R.ob(rule, self.f.q, c, self.f.loc(i), m)
    def nfcall(self, st, i):
        S = self
        d = st.poly.reduce(sub(st.lin(i.ops[0]), atom("sp")))
        if st.checking: self.ob("count" if self.mode == "num" else "release", i, is_const(d) and st.get("spk"), "fragments of something else than the span at hand are counted")
        r = st.ai.v.lin(i.id)
        st.poly.add_ge(r)
        if st.get("nfk"): st.poly.add_eq(sub(r, atom("nf")))
        else:
            st.assign("nf", r); st.set("nfk", 1)
            if self.mode == "seek":
                if st.get("el") == "F": st.poly.add_ge(sub(atom("rem"), r))
                elif st.get("el") == "P": st.poly.add_ge(add(sub(r, atom("rem")), const(-1)))
    def call(self, st, i, c):
        n = cname(self.u, i); v = st.ai.v
        st_get = st.get
        if n == "verif::iter_begin":
            if self.mode == "seek": st.assign("rem", atom(arg(1)))
            st.assign("vis", {}); st.set("it", 1)
            return True
        if n == "verif::elem_begin":
            st.assign("ei", st.lin(i.ops[1])); st.set("el", "?")
            for k in ("spk", "nfk", "destroyed", "sought", "ex", "asked"): st.set(k, 0)
            return True
        if n in ("verif::elem_is_full", "verif::elem_is_partial", "verif::elem_address", "verif::ring_handle", "verif::ring_size"):
            if n == "verif::elem_address": st.assign("slot", v.lin(i.id))
            if n == "verif::ring_size": st.poly.add_ge(v.lin(i.id)); st.assign("rsize", v.lin(i.id))
            if n == "verif::ring_handle": st.assign("rhandle", v.lin(i.id))
            return True
        if self.mode == "seek":
            if n == "verif::elem_full":
                st.poly.add_ge(add(sub(atom("T"), atom("ei")), const(-1))); st.set("el", "F")
            elif n == "verif::elem_partial":
                st.poly.add_eq(sub(atom("T"), atom("ei"))); st.poly.add_eq(sub(atom("rem"), atom("RR"))); st.set("el", "P")
            elif n == "verif::elem_after":
                st.poly.add_ge(add(sub(atom("ei"), atom("T")), const(-1))); st.set("el", "A")
        elif n == "verif::elem_full": st.set("el", "F")
        elif n in ("verif::elem_partial", "verif::elem_after"): st.dead = True     # one kind of element is enough here
        if n.startswith("verif::elem_") and n != "verif::elem_end":
            if not st.poly.feasible(): st.dead = True
            return True
        if n == "verif::slot_get":
            r = v.lin(i.id)
            if st.checking: self.ob("release", i, st.eq(sub(st.lin(i.ops[0]), atom("slot"))), "another slot than the one at hand is read")
            if st.get("ex"): st.poly.add_eq(sub(r, atom("sv")))
            elif st.get("spk"): st.poly.add_eq(sub(r, atom("sp")))
            else: st.assign("sp", r); st.set("spk", 1); st.poly.add_ne(r)
            return True
        if n in ("verif::slot_exchange", "verif::slot_reset"):
            val = st.lin(i.ops[1])
            if st.checking: self.ob("release", i, st.get("cons") == 1, "a span is taken out of the buffer's slot before the slot was released by the consumer")
            if n == "verif::slot_exchange":
                r = v.lin(i.id)
                if st.get("ex"): st.poly.add_eq(sub(r, atom("sv")))
                elif st.get("spk"): st.poly.add_eq(sub(r, atom("sp")))
                else: st.assign("sp", r); st.set("spk", 1); st.poly.add_ne(r)
            else:
                if not st.get("ex"): st.set("destroyed", min(2, st.get("destroyed") + 1))
            st.set("ex", 1); st.assign("sv", val)
            return True
        if c.startswith("_ZNKSt14default_delete") or c.startswith("_ZNSt14default_delete"):
            if st.get("spk") and st.eq(sub(st.lin(i.ops[1]), atom("sp"))): st.set("destroyed", min(2, st.get("destroyed") + 1))
            if st.checking and st.eq(st.lin(i.ops[1])): pass
            return True
        if n == NF: self.nfcall(st, i); return True
        if n == SK:
            if st.checking:
                d = st.poly.reduce(sub(st.lin(i.ops[0]), atom("sp")))
                self.ob("remnant", i, st.get("el") == "P" and st.get("spk") == 1 and is_const(d), "a span other than the partly sent one is repositioned")
                self.ob("remnant", i, st.get("cons") == 1, "a span is repositioned while it still is in the buffer")
                self.ob("remnant", i, st.eq(sub(st.lin(i.ops[1]), atom("rem"))), "the partly sent span is repositioned to a wrong fragment; facts: " + facts(st))
                self.ob("remnant", i, st.eq(sub(st.lin(i.ops[2]), atom(arg(2)))), "the partly sent span is repositioned to a wrong offset; facts: " + facts(st))
            st.set("sought", min(2, st.get("sought") + 1))
            return True
        if n == "verif::elem_end":
            el = st.get("el")
            if st.get("cons") == 1:
                if st.checking:
                    empty = st.get("ex") == 1 and st.eq(atom("sv"))
                    if el == "F":
                        self.ob("complete-spans", i, st.get("destroyed") == 1, "a completely sent span is not destroyed exactly once")
                        self.ob("complete-spans", i, empty, "the slot of a completely sent span is not left empty")
                        self.R.saw("element cases")
                    elif el == "P":
                        self.ob("remnant", i, st.get("destroyed") == 0, "the partly sent span is destroyed")
                        self.ob("remnant", i, empty, "the slot of the partly sent span is not left empty")
                        self.ob("remnant", i, st.get("sought") == 1, "the partly sent span is not repositioned exactly once")
                        self.ob("remnant", i, st.get("spk") == 1 and st.eq(sub(atom(cell(0, self.S.rem)), atom("sp"))), "the partly sent span is not kept as the remnant; facts: " + facts(st))
                        self.R.saw("element cases")
                    elif el == "A": self.ob("release", i, False, "a span none of which was sent is released")
            if self.mode == "seek" and el == "P": st.set("pdone", min(2, st.get("pdone", 0) + 1) if st.get("cons") == 1 else 0)
            if self.mode == "seek" and el == "F":
                if st.get("nfk"): st.assign("rem", sub(atom("rem"), atom("nf")))
                else:
                    st.assign("t", atom("rem")); st.havoc("rem"); st.poly.add_ge(atom("rem")); st.poly.add_ge(sub(atom("t"), atom("rem"))); st.havoc("t")
            if self.mode == "num":
                if st.checking: self.ob("count", i, st.get("nfk") == 1, "a span's fragments are not counted")
                st.assign("sum", add(atom("sum"), atom("nf"))) if st.get("nfk") else st.havoc("sum")
            st.assign("vis", add(atom("ei"), const(1)))
            for k in ("spk", "nfk", "destroyed", "sought", "ex", "asked"): st.set(k, 0)
            st.set("el", None)
            for g in ("nf", "sp", "sv", "slot", "ei"): st.havoc(g)
            return True
        if n == "lightstep::MetricsTracker::OnSpansSent":
            st.set("sent", min(2, st.get("sent", 0) + 1))
            if st.checking:
                want = atom("T") if self.mode == "seek" else atom("n0")
                self.ob("sent-count", i, st.eq(sub(st.lin(i.ops[1]), want)), "the number of spans counted as sent is not the number of completely sent spans; facts: " + facts(st))
            return True
        if n == "verif::ring_consume_begin":
            if st.checking:
                self.ob("release", i, st.get("cons", 0) == 0, "spans are released twice")
                K = st.lin(i.ops[1])
                if self.mode == "seek":
                    pos = atom(arg(2))
                    for eqs, ges, want, msg in (((atom("RR"), pos), (), 0, "although the write stopped exactly at the end of a span, another number than the completely sent spans is released"),
                                                ((), (add(atom("RR"), const(-1)),), 1, "although the write stopped inside a span, another number than the completely sent spans and that one is released"),
                                                ((atom("RR"),), (add(pos, const(-1)),), 1, "although the write stopped inside a span's first fragment, another number than the completely sent spans and that one is released")):
                        p = st.poly.copy()
                        for e in eqs: p.add_eq(e)
                        for e in ges: p.add_ge(e)
                        if p.bot or not p.feasible(): continue
                        self.ob("release", i, p.entails_eq(add(sub(K, atom("T")), const(-want))), msg + "; facts: " + facts(st))
                else: self.ob("release", i, st.eq(sub(K, atom("n0"))), "not exactly the allotted spans are released")
            # keep the two cases apart from here on
            if self.mode == "seek":
                d = sub(st.lin(i.ops[1]), atom("T"))
                st.set("kcase", 0 if st.eq(d) else 1 if st.eq(add(d, const(-1))) else 2)
            st.set("cons", 1)
            return True
        if n == "verif::ring_consume_end": st.set("cons", 2); return True
        if n == "verif::ring_consume_all":
            if st.checking:
                self.ob("release", i, st.get("cons", 0) == 0, "spans are released twice")
                if self.mode == "clear": self.ob("release", i, st.eq(sub(st.lin(i.ops[1]), atom("n0"))), "not exactly the allotted spans are released")
                else: self.ob("release", i, False, "spans are released without keeping the partly sent one")
            st.set("cons", 2); return True
        if n == "verif::ring_peeked": st.set("peeks", min(2, st.get("peeks", 0) + 1)); return True
        if n == FE:
            if st.checking:
                d = st.poly.reduce(sub(st.lin(i.ops[0]), atom("sp")))
                self.ob("iterate", i, st.get("spk") == 1 and is_const(d), "another span than the one at hand is iterated")
                self.ob("iterate", i, st.get("asked") == 0, "a span is iterated twice")
                self.ob("iterate", i, st.get("pendfr", 0) == 0, "the iteration goes on without regard to whether the callback declined")
                self.ob("iterate", i, st.get("stopped", 0) == 0, "the iteration goes on after the callback declined")
                self.ob("iterate", i, st.eq(sub(st.lin(i.ops[1]), atom(arg(1)))) and st.eq(sub(st.lin(i.ops[2]), atom(arg(2)))), "fragments go to another callback than the one given")
            st.set("asked", 1); st.assign("fr", v.lin(i.id)); st.set("pendfr", 1)
            return True
        if n.startswith("verif::"): return True
        return None

def check_seek(S):
    f = S.m("Seek"); W = Walk(S, f, "seek"); ob = W.ob
    def init(st):
        for g in (atom(arg(1)), atom(arg(2)), atom("T"), atom("RR")): st.poly.add_ge(g)
        st.poly.add_ge(add(sub(atom(S.size), atom("T")), const(-1)))
        st.set("cons", 0); st.set("sent", 0)
    def on_ret(st, i, r):
        if not st.checking: return
        S.R.saw("exits")
        ob("release", i, st.get("cons") == 2, "returning without releasing the sent spans")
        ob("sent-count", i, st.get("sent") == 1, "the completely sent spans are not counted exactly once")
        ob("no-stale-allotment", i, st.eq(atom(S.size)), "released spans stay in the allotment")
    Mem(f, init=init, on_call=W.call, on_ret=on_ret).run()

def check_clear(S):
    f = S.m("Clear"); W = Walk(S, f, "clear"); ob = W.ob
    def init(st): st.assign("n0", atom(S.size)); st.poly.add_ge(atom("n0")); st.set("cons", 0); st.set("sent", 0)
    def on_ret(st, i, r):
        if not st.checking: return
        S.R.saw("exits")
        none = st.eq(atom("n0"))
        ob("release", i, st.get("cons") == 2 or none, "the sent spans are not released")
        ob("sent-count", i, st.get("sent") == 1 or none, "the sent spans are not counted exactly once")
        ob("no-stale-allotment", i, st.eq(atom(S.size)), "released spans stay in the allotment")
    Mem(f, init=init, on_call=W.call, on_ret=on_ret).run()

def check_num(S):
    f = S.m("num_fragments"); W = Walk(S, f, "num"); ob = W.ob
    def init(st): st.assign("sum", {}); st.assign("n0", atom(S.size)); st.poly.add_ge(atom("n0")); st.assign("vis", {})
    def on_ret(st, i, r):
        if not st.checking: return
        S.R.saw("exits")
        ob("count", i, st.eq(sub(r, atom("sum"))), "the count is not the sum of the spans' counts; facts: " + facts(st))
        ob("count", i, st.eq(sub(atom("vis"), atom("n0"))), "not every allotted span is counted; facts: " + facts(st))
    Mem(f, init=init, on_call=W.call, on_ret=on_ret).run()

def check_foreach(S):
    f = S.m("ForEachFragment"); W = Walk(S, f, "each"); ob = W.ob
    def init(st):
        st.assign("n0", atom(S.size)); st.poly.add_ge(atom("n0")); st.assign("vis", {}); st.set("stopped", 0); st.set("pendfr", 0); st.set("asked", 0)
    def edge(st, b, s, k):
        if st.get("pendfr"):
            if st.eq(atom("fr")): st.set("stopped", 1); st.set("pendfr", 0)
            elif st.eq(add(atom("fr"), const(-1))): st.set("pendfr", 0)
    def on_call(st, i, c):
        if cname(S.u, i) == "verif::elem_end" and st.checking:
            ob("iterate", i, st.get("asked") == 1, "a span is skipped")
        return W.call(st, i, c)
    def on_ret(st, i, r):
        if not st.checking: return
        S.R.saw("exits")
        full = sub(atom("vis"), atom("n0"))
        if st.get("stopped"): ob("iterate", i, st.eq(r), "true is returned although the callback declined")
        elif st.get("pendfr"):
            ob("iterate", i, st.eq(sub(r, atom("fr"))), "the result is not whether the iteration completed")
        else:
            ob("iterate", i, st.eq(add(r, const(-1))), "false is returned although the callback never declined")
            ob("iterate", i, st.eq(full), "spans are skipped")
    Mem(f, init=init, on_call=on_call, on_ret=on_ret, edge_hook=edge).run()

def check_small(S):
    f = S.m("Allot"); W = Walk(S, f, "allot")
    def init(st): st.set("peeks", 0)
    def on_ret(st, i, r):
        if not st.checking: return
        S.R.saw("exits")
        W.ob("allot", i, st.get("peeks") >= 1 and st.eq(sub(atom(S.size), atom("rsize"))) and st.eq(sub(atom(cell(0, S.rng)), atom("rhandle"))), "the allotment is not everything in the buffer")
    Mem(f, init=init, on_call=W.call, on_ret=on_ret).run()
    f = S.m("ConsumeRemnant"); W = Walk(S, f, "hand"); t = this_arg(f)
    out = arg(0) if t else None
    if out is None: raise Broken("ConsumeRemnant does not return the remnant by value")
    def init(st): st.assign("r0", atom(cell(t, S.rem)))
    def on_call(st, i, c):
        if c.startswith("_ZNKSt14default_delete"):
            if st.checking: W.ob("handoff", i, False, "the remnant is destroyed instead of handed out")
            return True
        return W.call(st, i, c)
    def on_ret(st, i, r):
        if not st.checking: return
        S.R.saw("exits")
        W.ob("handoff", i, st.eq(atom(cell(t, S.rem))), "the stream keeps a reference to the remnant it handed out")
        W.ob("handoff", i, st.eq(sub(atom(mvar(out, 0)), atom("r0"))), "something else than the remnant is handed out")
    Mem(f, init=init, on_call=on_call, on_ret=on_ret).run()

def check(R):
    for k, t in RULES.items(): R.rule(k, t)
    S = Span(R)
    for c in (check_seek, check_clear, check_num, check_foreach, check_small):
        c(S); R.saw("methods analysed")
    R.assume("the position sought lies strictly inside the allotment (a completely sent stream is cleared instead; decided by the consume rules)")
    R.assume("the allotment is the oldest part of the buffer: nothing is consumed between allotting and seeking (one consumer)")

"""Contracts of the request assembled from a header, an optional metrics fragment and spans, and of copying a chain of
fragments into one buffer."""
from checks.streams import *
from checks.fragments import members, Asks, strip_q
RR = "lightstep::ReportRequest"
EM = "lightstep::EmbeddedMetricsMessage"

class Request:
    def __init__(self, R):
        self.R = R
        self.u = stream_view("request", [RR + "::[^:]*", "lightstep::BufferChain::[^:]*"],
                             [EM + "::.*", "lightstep::ComposableFragmentInputStream::(Append|num_fragments)"], chain=True)
        m = members(self.u, RR)
        def of(pred, what):
            r = [e["off"] for e in m.values() if pred(e)]
            if len(r) != 1: raise Broken("%s: %s not recognised" % (RR, what))
            return r[0]
        self.header = of(lambda e: "shared_ptr" in e["t"], "header")
        self.metrics = of(lambda e: "unique_ptr" in e["t"] and "EmbeddedMetricsMessage" in e["t"], "metrics message")
        self.spans = of(lambda e: "unique_ptr" in e["t"] and "Stream" in e["t"], "span chain")
        self.frag = of(lambda e: "pair" in e["t"], "metrics fragment")
        # the counters are whatever the public accessors return
        self.nb = self.getter("num_bytes"); self.nf = self.getter("num_fragments"); self.ns = self.getter("num_spans")
    def m(self, n): return one(self.u, RR + "::" + n)
    def getter(self, n):
        f = self.m(n); out = []
        def on_ret(st, i, r):
            for e in st.poly.atoms():
                if isinstance(e, tuple) and e[0] == "m" and e[1] == "arg0" and st.eq(sub(r, atom(e))): out.append(e)
        Mem(f, on_ret=on_ret).run()
        if not out: return None
        return out[0]
    def counters(self, rule):
        ok = True
        for n, c in (("num_bytes", self.nb), ("num_fragments", self.nf), ("num_spans", self.ns)):
            f = self.m(n)
            self.R.ob(rule, f.q, c is not None, f.loc(None), "the accessor does not return a maintained count")
            ok = ok and c is not None
        return ok
    def strcalls(self, st, i):
        n = cname(self.u, i)
        if "basic_string" in (callee_of(i) or "") and i.ops and st.eq(sub(st.lin(i.ops[0]), atom("hp"))):
            if n.endswith("::size") or n.endswith("::length"): st.poly.add_eq(sub(st.ai.v.lin(i.id), atom("hs"))); return True
            if n.endswith("::data") or n.endswith("::c_str"): st.poly.add_eq(sub(st.ai.v.lin(i.id), atom("hd"))); return True
            if n.endswith("::empty"): return True
    def ctor(self, rule):
        fs = [f for f in self.u.byq.get(RR + "::ReportRequest", []) if not f.is_decl and len(f.args) == 3]
        if not fs: raise Broken("constructor of %s not found" % RR)
        f = fs[0]
        ob = lambda i, c, m: self.R.ob(rule, f.q, c, f.loc(i), m)
        hc = cell(0, self.header)
        def init(st):
            st.poly.add_ge(atom("hs")); st.set("mf", 0); st.set("dset", 0); st.set("hset", 0)
            st.poly.add_ge(atom(arg(2)))
        def on_call(st, i, c):
            n = cname(self.u, i)
            if "shared_ptr" in n and n.split("::")[-1] in ("shared_ptr", "__shared_ptr", "operator=") and st.eq(sub(st.lin(i.ops[0]), add(atom(arg(0)), const(self.header)))):
                if len(i.ops) > 1 and st.eq(sub(st.lin(i.ops[1]), atom(arg(1)))): st.set("hset", 1)
                st.assign(hc, atom("hp")); return True
            if self.strcalls(st, i): return True
            if n == EM + "::set_num_dropped_spans":
                if st.checking: ob(i, st.eq(sub(st.lin(i.ops[1]), atom(arg(2)))), "the metrics report another number of dropped spans than the one given")
                st.set("dset", 1); st.assign("dm", st.lin(i.ops[0])); return True
            if n == EM + "::MakeFragment":
                if st.checking: ob(i, st.get("mf") == 0 and st.get("dset") == 1 and st.eq(sub(st.lin(i.ops[0]), atom("dm"))), "the metrics are serialized before the dropped spans were set")
                st.set("mf", min(2, st.get("mf") + 1)); return True
            if n.startswith(EM + "::"): return True
        def on_ret(st, i, r):
            if not st.checking: return
            self.R.saw("exits")
            ob(i, st.get("hset") == 1, "the header given is not kept")
            f1, f2 = atom(cell(0, self.frag)), atom(cell(0, self.frag + 8))
            if st.get("mf"):
                ob(i, st.ne(atom(arg(2))) or st.ge(add(atom(arg(2)), const(-1))), "metrics are reported although no span was dropped")
                ob(i, st.eq(sub(atom(self.nb), add(atom("hs"), f2))), "the byte count of a new request is not header plus metrics; facts: " + facts(st))
                ob(i, st.eq(add(atom(self.nf), const(-2))), "a new request with metrics does not have two fragments")
                ob(i, st.eq(sub(atom(cell(0, self.metrics)), atom("dm"))), "the metrics message is not kept")
            else:
                ob(i, st.eq(atom(arg(2))), "dropped spans are not reported")
                ob(i, st.eq(sub(atom(self.nb), atom("hs"))), "the byte count of a new request is not the header's size; facts: " + facts(st))
                ob(i, st.eq(add(atom(self.nf), const(-1))), "a new request does not have one fragment")
                ob(i, st.eq(atom(cell(0, self.metrics))), "metrics appear to be present although there are none")
            ob(i, st.eq(atom(self.ns)) and st.eq(atom(cell(0, self.spans))), "a new request is not empty of spans")
        Mem(f, init=init, on_call=on_call, on_ret=on_ret).run()
        self.R.saw("functions")
    def add_span(self, rule):
        f = self.m("AddSpan")
        ob = lambda i, c, m: self.R.ob(rule, f.q, c, f.loc(i), m)
        own = mvar(arg(1), 0); sp = cell(0, self.spans)
        off = ir.base_offset("lightstep::ChainedStream", "lightstep::ComposableFragmentInputStream") if hasattr(ir, "base_offset") else 8
        def init(st):
            for g, c in (("nb0", self.nb), ("nf0", self.nf), ("ns0", self.ns), ("ch0", sp), ("s", own)): st.assign(g, atom(c))
            st.poly.add_ne(atom("s"))
            st.assign("sum", {}); st.set("nfk", 0); st.set("got", 0); st.set("ended", 0); st.set("app", 0); st.set("more", 0)
        def this(st, i, what):
            d = st.poly.reduce(sub(st.lin(i.ops[0]), atom("s")))
            if st.checking: ob(i, is_const(d), "the %s of something else than the span is counted" % what)
        def take(st):
            if st.get("got"): st.assign("sum", add(atom("sum"), atom("fs"))); st.set("got", 0)
        def on_call(st, i, c):
            n = cname(self.u, i)
            if n.endswith("::num_fragments") or c == fis("num_fragments"):
                this(st, i, "fragments")
                if st.checking: ob(i, st.get("app") == 0, "the span's fragments are counted after other spans were linked to it or it was given away")
                st.assign("n", st.ai.v.lin(i.id)); st.set("nfk", 1); return True
            if n == "verif::stream_more":
                this(st, i, "bytes")
                if st.checking:
                    self.R.saw("iterations")
                    ob(i, st.get("app") == 0, "the span's bytes are counted after it was given away")
                    ob(i, st.get("ended") == 0, "the span's bytes are counted twice")
                take(st); st.assign("mr", st.ai.v.lin(i.id)); st.set("more", 1); return True
            if n == "verif::stream_data": return True
            if n == "verif::stream_size":
                st.assign("fs", st.ai.v.lin(i.id)); st.poly.add_ge(atom("fs")); st.set("got", 1); return True
            if n.endswith("ComposableFragmentInputStream::Append"):
                if st.checking:
                    d = st.poly.reduce(sub(st.lin(i.ops[0]), atom("ch0")))
                    ob(i, is_const(d) and st.ne(atom("ch0")), "the span is appended to something else than the spans added before")
                    x = st.poly.reduce(sub(atom(mm.ptr(st, i.ops[1]) or ("m", "?", 0)), atom("s")))
                    ob(i, is_const(x), "something else than the span is appended")
                st.set("app", min(2, st.get("app") + 1))
                l = mm.ptr(st, i.ops[1])
                if l is not None: mm.set(st, l, {})
                return True
            if c.startswith("_ZNKSt14default_delete"):
                if st.checking: ob(i, False, "a span is destroyed")
                return True
        def edge(st, b, s, k):
            if st.get("more"):
                if st.eq(atom("mr")): st.set("more", 0); st.set("ended", 1)
                elif st.ne(atom("mr")): st.set("more", 0)
        def on_ret(st, i, r):
            if not st.checking: return
            self.R.saw("exits")
            ob(i, st.get("ended") == 1 and st.get("got") == 0 and st.eq(sub(atom(self.nb), add(atom("nb0"), atom("sum")))), "the byte count does not grow by the span's bytes; facts: " + facts(st))
            ob(i, st.get("nfk") == 1 and st.eq(sub(atom(self.nf), add(atom("nf0"), atom("n")))), "the fragment count does not grow by the span's fragments; facts: " + facts(st))
            ob(i, st.eq(sub(atom(self.ns), add(atom("ns0"), const(1)))), "the span is not counted once")
            if st.get("app"):
                ob(i, st.get("app") == 1, "the span is appended twice")
                ob(i, st.eq(sub(atom(sp), atom("ch0"))), "the spans added before are lost")
            else:
                ob(i, st.eq(atom("ch0")), "the span replaces the spans added before")
                ob(i, st.eq(sub(atom(sp), atom("s"))) and st.eq(atom(own)), "the first span is not kept")
        mm = Mem(f, init=init, on_call=on_call, on_ret=on_ret, edge_hook=edge); mm.run()
        self.R.saw("functions")
    def each(self, rule):
        f = self.m("ForEachFragment")
        ob = lambda i, c, m: self.R.ob(rule, f.q, c, f.loc(i), m)
        hc = cell(0, self.header)
        for met in (0, 1):
            for spans in (0, 1):
                A = Asks(ob)
                def init(st):
                    A.init(st)
                    st.assign(hc, atom("hp"))
                    for c, x in ((cell(0, self.metrics), met), (cell(0, self.spans), spans)):
                        if x: st.poly.add_ne(atom(c))
                        else: st.poly.add_eq(atom(c))
                    st.assign("ch0", atom(cell(0, self.spans)))
                    st.assign("m1", atom(cell(0, self.frag))); st.assign("m2", atom(cell(0, self.frag + 8)))
                    for k in ("got", "more", "ended"): st.set(k, 0)
                def on_call(st, i, c):
                    if self.strcalls(st, i): return True
                    n = cname(self.u, i)
                    if n == "verif::stream_more":
                        if st.checking:
                            ob(i, is_const(st.poly.reduce(sub(st.lin(i.ops[0]), atom("ch0")))), "something else than the spans is iterated")
                            ob(i, st.get("stopped") == 0 and st.get("got") == 0 and st.ge(add(atom("k"), const(-1 - met))) and not st.get("ended"), "spans are offered before header and metrics, partly, or after the callback declined")
                        st.assign("mr", st.ai.v.lin(i.id)); st.set("more", 1); return True
                    if n == "verif::stream_data": st.assign("fd", st.ai.v.lin(i.id)); st.set("got", 1); return True
                    if n == "verif::stream_size": st.assign("fs", st.ai.v.lin(i.id)); st.poly.add_ge(atom("fs")); return True
                    if not A.is_callback(st, i): return
                    if st.checking:
                        self.R.saw("callbacks")
                        ob(i, st.eq(sub(st.lin(i.d["callee"]), atom(arg(1)))) and st.eq(sub(st.lin(i.ops[0]), atom(arg(2)))), "something else than the given callback is called")
                        d, s = st.lin(i.ops[1]), st.lin(i.ops[2])
                        k = st.poly.reduce(atom("k"))
                        if is_const(k) and cval(k) == 0: ob(i, st.eq(sub(d, atom("hd"))) and st.eq(sub(s, atom("hs"))), "the first fragment is not the header; facts: " + facts(st))
                        elif met and is_const(k) and cval(k) == 1: ob(i, st.eq(sub(d, atom("m1"))) and st.eq(sub(s, atom("m2"))), "the second fragment is not the metrics")
                        else: ob(i, spans and st.get("got") == 1 and st.eq(sub(d, atom("fd"))) and st.eq(sub(s, atom("fs"))), "a fragment is not the next one of the spans")
                    A.ask(st, i); st.set("got", 0)
                    return True
                def edge(st, b, s, k):
                    A.edge(st)
                    if st.get("more"):
                        if st.eq(atom("mr")): st.set("more", 0); st.set("ended", 1)
                        elif st.ne(atom("mr")): st.set("more", 0)
                def on_ret(st, i, r):
                    if not st.checking: return
                    self.R.saw("exits")
                    done = lambda p: st.get("got") == 0 and (st.get("ended") == 1 if spans else (p.entails_eq(add(atom("k"), const(-1 - met)))))
                    A.ret(st, i, r, done)
                mm = Mem(f, init=init, on_call=on_call, on_ret=on_ret, edge_hook=edge)
                mm.ai.templates = [atom("k"), add(atom("k"), const(-1)), add(atom("k"), const(-2))]
                mm.run()
        self.R.saw("functions")
    def copy_out(self, rule, rbound):
        f = one(self.u, "lightstep::BufferChain::CopyOut")
        ob = lambda i, c, m: self.R.ob(rule, f.q, c, f.loc(i), m)
        obb = lambda i, c, m: self.R.ob(rbound, f.q, c, f.loc(i), m)
        nb = slot_of("lightstep::BufferChain", "num_bytes")
        def init(st):
            st.assign("sum", {}); st.assign("j", {})
            for k in ("got", "more", "ended", "nbk", "ld"): st.set(k, 0)
        def done(st, i):
            if st.get("got") and st.checking: ob(i, st.eq(sub(atom("j"), atom("fs"))), "a fragment is not copied completely; facts: " + facts(st))
            if st.get("got"): st.assign("sum", add(atom("sum"), atom("fs"))); st.assign("j", {}); st.set("got", 0)
        dst = lambda: add(add(atom(arg(1)), atom("sum")), atom("j"))
        src = lambda: add(atom("fd"), atom("j"))
        def copied(st, i, d, s, n):
            if st.checking:
                self.R.saw("copies")
                ob(i, st.get("got") and st.eq(sub(d, dst())), "bytes are not copied right behind those before; facts: " + facts(st))
                ob(i, s is None or (st.get("got") and st.eq(sub(s, src()))), "something else than the fragment's next bytes is copied; facts: " + facts(st))
                ob(i, st.get("got") and st.ge(sub(sub(atom("fs"), atom("j")), n)), "more than the fragment is copied")
                obb(i, st.get("nbk") and st.ge(sub(atom(arg(2)), atom("nb"))), "bytes are copied although the buffer may be too small")
            st.assign("j", add(atom("j"), n)); st.poly.add_ge(atom("j"))
        def on_call(st, i, c):
            n = cname(self.u, i)
            if c == nb:
                if st.checking: ob(i, st.eq(sub(st.lin(i.ops[0]), atom(arg(0)))), "the size of something else is compared")
                st.assign("nb", st.ai.v.lin(i.id)); st.set("nbk", 1); return True
            if n == "verif::chain_more":
                if st.checking: ob(i, st.eq(sub(st.lin(i.ops[0]), atom(arg(0)))), "something else than the chain is copied")
                done(st, i); st.assign("mr", st.ai.v.lin(i.id)); st.set("more", 1); return True
            if n == "verif::chain_data": st.assign("fd", st.ai.v.lin(i.id)); st.set("got", 1); return True
            if n == "verif::chain_size": st.assign("fs", st.ai.v.lin(i.id)); st.poly.add_ge(atom("fs")); return True
            if c.startswith(("llvm.memcpy", "llvm.memmove")) or c in ("memcpy", "memmove"):
                copied(st, i, st.lin(i.ops[0]), st.lin(i.ops[1]), st.lin(i.ops[2])); return True
            if c == "_ZSt9terminatev" or c == "abort": return True
        def on_load(st, i):
            if i.ty == "i8" and st.get("got") and st.eq(sub(st.lin(i.ops[0]), src())):
                st.assign("lb", st.ai.v.lin(i.id)); st.set("ld", 1); return True
        def on_store(st, i):
            if i.op == "store" and i.d.get("vty", i.ty) == "i8" or (i.op == "store" and st.get("ld") and st.eq(sub(st.lin(i.ops[0]), atom("lb")))):
                if st.checking: ob(i, st.get("ld") == 1 and st.eq(sub(st.lin(i.ops[0]), atom("lb"))), "a byte is written that was not read from the fragment")
                copied(st, i, st.lin(i.ops[1]), None, const(1)); st.set("ld", 0); return True
        def edge(st, b, s, k):
            if st.get("more"):
                if st.eq(atom("mr")): st.set("more", 0); st.set("ended", 1)
                elif st.ne(atom("mr")): st.set("more", 0)
        def on_ret(st, i, r):
            if not st.checking: return
            self.R.saw("exits")
            ob(i, st.get("ended") == 1 and st.get("got") == 0, "returning before everything was copied")
        mm = Mem(f, init=init, on_call=on_call, on_load=on_load, on_store=on_store, on_ret=on_ret, edge_hook=edge)
        mm.ai.templates = [sub(atom("fs"), atom("j")), atom("j"), add(sub(atom("fs"), atom("j")), const(-1))]
        mm.run()
        self.R.saw("functions")

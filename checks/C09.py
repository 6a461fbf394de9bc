"""Follows protobuf's writing primitives symbolically on every path: that the announced size of an embedded message is what
is written (key of the given field, length, exactly the message's bytes, in that order, to the given stream); that the
metrics fragment is sized for, filled with and returned as exactly that; that the direct stream advances by what it wrote
and its hand-unrolled varint is the shortest encoding of every 64-bit value; that report and chunk headers end where the
body begins and announce the body's size."""
from lib import *
from contract import *
from checks.wire import *
from checks.bits import Bits, S, P, table
import ir
RULES = {
    "size": ("the size computed for an embedded message is that of key, length and message", 2),
    "embed": ("an embedded message is written as key, length and message to the given stream", 2),
    "metrics": ("the metrics fragment is sized for, filled with and returned as the embedded metrics message", 1),
    "dropped": ("the number of dropped spans is stored in and read from the counter that is serialized", 3),
    "direct": ("the direct stream writes the given value with protobuf's encoding and stands right behind it afterwards", 4),
    "varint": ("a large integer is written as the shortest varint of exactly its value", 1),
    "header": ("a header ends where the body begins and announces the body's size", 2),
}
L = "lightstep::"; EM = L + "EmbeddedMetricsMessage"; D = L + "DirectCodedOutputStream"
PB = ["google::.*", L + "collector::.*"]
MSG = "google::protobuf::Message"

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    P_ = ir.program()
    P_.need("common/"); P_.need("recorder/serialization/")
    R.assume("protobuf's own serializer, CodedOutputStream, ArrayOutputStream and varint primitives do what they are documented to do")
    R.assume("a message's serialized length fits 31 bits")
    u = ir.view("embedded", [L + "ComputeEmbeddedMessageSerializationSize", L + "WriteEmbeddedMessage"], PB)
    for f in some(u, L + "ComputeEmbeddedMessageSerializationSize"): size(R, u, f)
    for f in some(u, L + "WriteEmbeddedMessage"): embed(R, u, f)
    m = ir.view("metrics_message", [EM + "::.*"], PB)
    metrics(R, m); dropped(R, m)
    d = ir.view("direct", [D + "::.*", L + "WriteBigVarint64"], PB)
    direct(R, d); varint(R, d)
    h = ir.view("headers", [L + "WriteReportRequestSpansHeader", L + "WriteHttpChunkHeader"], PB, inlines=["opentracing::.*string_view::.*"])
    spans_header(R, h); chunk_header(R, h)

def is_msg_size(c, n): return n.endswith("::ByteSizeLong") or (c.startswith("vcall$") and n == MSG + "::slot64") or n.endswith("::GetCachedSize")
def is_msg_write(n): return re.search(r"::Serialize(Partial)?(WithCachedSizes|ToCodedStream)$", n) is not None
def ptype(f, k): return str((f.pt or [None] * 9)[k + 1])

def size(R, u, f):
    given = f.args[1][1] != "ptr"
    ob = lambda i, c, m: R.ob("size", "%s(%s)" % (f.q, "size" if given else "message"), c, f.loc(i), m)
    W = Wire(u); n = atom(arg(1)) if given else atom("bsl")
    def on_call(st, i, c):
        nm = cname(u, i)
        if is_msg_size(c, nm) and st.eq(sub(st.lin(i.ops[0]), atom(arg(1)))):
            st.poly.add_eq(sub(st.ai.v.lin(i.id), atom("bsl"))); return True
        return W.call(st, i, c, nm)
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        want = add(add(W.measure(st, add(scale(atom(arg(0)), 8), const(2))), W.measure(st, n)), n)
        ob(i, st.eq(sub(r, want)), "the size is not that of key, length and message; facts: " + facts(st))
    Mem(f, on_call=on_call, on_ret=on_ret, on_instr=W.instr, partition=True).run(); R.saw("functions")

def embed(R, u, f):
    given = len(f.args) == 4
    mp = len(f.args) - 1
    ob = lambda i, c, m: R.ob("embed", "%s(%s)" % (f.q, "size" if given else "message"), c, f.loc(i), m)
    W = Wire(u); n = atom(arg(2)) if given else atom("bsl")
    def init(st):
        if given: st.assign(arg(2), atom("n"))
    nn = atom("n") if given else atom("bsl")
    def on_call(st, i, c):
        nm = cname(u, i)
        if is_msg_size(c, nm) and st.eq(sub(st.lin(i.ops[0]), atom(arg(mp)))):
            st.poly.add_eq(sub(st.ai.v.lin(i.id), nn)); return True
        if is_msg_write(nm):
            W.item(st, "msg", st.lin(i.ops[1]), st.lin(i.ops[0])); return True
        return W.call(st, i, c, nm)
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        s_ = atom(arg(0))
        want = (("v", s_, add(scale(atom(arg(1)), 8), const(2))), ("v", s_, nn), ("msg", s_, atom(arg(mp))))
        ob(i, W.same(st, want), "what is written is not the field's key, the message's length and the message, but " + W.shown(st))
    Mem(f, init=init, on_call=on_call, on_ret=on_ret, on_instr=W.instr, partition=True).run(); R.saw("functions")

def metrics(R, u):
    f = one(u, EM + "::MakeFragment")
    t = this_arg(f); this = arg(t)
    ob = lambda i, c, m: R.ob("metrics", f.q, c, f.loc(i), m)
    P_ = ir.program()
    msg = member(EM, lambda n, ty: ty.endswith("InternalMetrics"), "metrics message")
    buf = member(EM, lambda n, ty: "vector<" in ty, "buffer")
    W = Wire(u); KEY = const(6 * 8 + 2)
    def init(st):
        st.poly.add_ge(atom("n"))
        st.assign(mvar(this, buf + 8), add(atom(mvar(this, buf)), atom("bs")))
        st.poly.add_ge(atom("bs"))
        for g in ("sized", "open", "flushed", "ser"): st.set(g, 0)
        st.set("w", ())
    def isme(st, o, k): return st.eq(sub(st.lin(o), add(atom(this), const(k))))
    M = None
    def on_call(st, i, c):
        nm = cname(u, i); last = nm.split("::")[-1]
        ck = st.checking
        if is_msg_size(c, nm) and isme(st, i.ops[0], msg):
            st.poly.add_eq(sub(st.ai.v.lin(i.id), atom("n")))
            if not nm.endswith("GetCachedSize"): st.set("sized", 1)
            return True
        if re.search(r"vector::(resize|assign)$", nm) and isme(st, i.ops[0], buf):
            b = mvar(this, buf); M.set(st, b, atom("newbuf")); M.set(st, mvar(this, buf + 8), add(atom("newbuf"), st.lin(i.ops[1])))
            if ck: ob(i, st.get("open") == 0, "the buffer is resized while it is written to")
            return True
        if nm.endswith("vector::size") and isme(st, i.ops[0], buf):
            return True
        if "ArrayOutputStream" in nm and last == "ArrayOutputStream":
            st.assign("ap", st.lin(i.ops[1])); st.assign("an", st.lin(i.ops[2])); st.assign("as", st.lin(i.ops[0])); st.set("open", 1)
            return True
        if nm == COS + "::CodedOutputStream":
            if ck: ob(i, st.get("open") == 1 and st.eq(sub(st.lin(i.ops[1]), atom("as"))), "the fragment is written to something else than the buffer")
            st.assign("cs", st.lin(i.ops[0])); st.set("open", 2); return True
        if nm == COS + "::~CodedOutputStream" or nm == COS + "::Trim": 
            st.set("flushed", 1); return True
        if "OutputStream::~" in nm: return True
        if is_msg_write(nm):
            if ck: ob(i, st.get("sized") == 1 or "ToCodedStream" in nm, "the message is serialized with sizes that were not computed")
            W.item(st, "msg", st.lin(i.ops[1]), sub(st.lin(i.ops[0]), atom(this)))
            return True
        r = W.call(st, i, c, nm)
        if r: return r
        if L + "collector::" in nm and i.ops and isme(st, i.ops[0], msg) and re.match(r"(set_|clear|Clear|add_|mutable_|Merge|Copy|Swap)", last) and ck:
            ob(i, not st.get("sized"), "the message is changed after its size was computed")
    vals = {}
    def on_instr(st, i):
        W.instr(st, i)
        if i.op == "insertvalue":       # the pair that is returned
            a = i.ops[0]
            e = dict(vals.get(int(a[1:]), {})) if isinstance(a, str) and a.startswith("%") else {}
            e[i.d["idx"][0]] = i.ops[1]; vals[i.id] = e
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        s_ = atom("cs")
        want = (("v", s_, KEY), ("v", s_, atom("n")), ("msg", s_, const(msg)))
        ob(i, W.same(st, want), "what is written is not the metrics' key, length and message, but " + W.shown(st))
        ob(i, st.get("flushed") == 1, "the stream is not flushed into the buffer before it is returned")
        total = add(add(W.measure(st, KEY), W.measure(st, atom("n"))), atom("n"))
        ob(i, st.eq(sub(atom("an"), total)), "the buffer does not have the size of key, length and message; facts: " + facts(st))
        ob(i, st.eq(sub(atom("ap"), atom(mvar(this, buf)))), "another buffer than the message's own is written")
        o = i.ops[0] if i.ops else None
        e = vals.get(int(o[1:]), {}) if isinstance(o, str) and o.startswith("%") else {}
        if set(e) == {0, 1}:
            ob(i, st.eq(sub(st.lin(e[0]), atom("ap"))), "the fragment returned is not where the message was written")
            ob(i, st.eq(sub(st.lin(e[1]), total)), "the fragment's size is not that of key, length and message; facts: " + facts(st))
        else: ob(i, False, "the fragment returned is not recognised")
    M = Mem(f, init=init, on_call=on_call, on_ret=on_ret, on_instr=on_instr, partition=True, keep=lambda st, i, b: b == this and not (callee_of(i) or "").startswith("_ZN9lightstep22EmbeddedMetricsMessage"))
    M.run(); R.saw("functions")

def dropped(R, u):
    MS = L + "collector::MetricsSample"
    cnt = member(EM, lambda n, ty: "MetricsSample" in ty, "dropped span counter")
    msg = member(EM, lambda n, ty: ty.endswith("InternalMetrics"), "metrics message")
    # construction
    f = one(u, EM + "::EmbeddedMetricsMessage")
    ob = lambda i, c, m: R.ob("dropped", f.q, c, f.loc(i), m)
    names = {n: bytes.fromhex(g["init"]["strhex"]) for n, g in u.globals.items() if isinstance(g.get("init"), dict) and "strhex" in g["init"]}
    for n, g in ir.program().globals.items():
        if isinstance(g.get("init"), dict) and "strhex" in g["init"]: names.setdefault(n, bytes.fromhex(g["init"]["strhex"]))
    def init0(st): st.set("added", 0); st.set("named", ""); st.set("val", "")
    def on_call0(st, i, c):
        n = cname(u, i); last = n.split("::")[-1]
        if last == "add_counts":
            if st.checking: ob(i, st.eq(sub(st.lin(i.ops[0]), add(atom(arg(0)), const(msg)))), "the counter is added to another message")
            st.set("added", min(2, st.get("added") + 1)); st.poly.add_eq(sub(st.ai.v.lin(i.id), atom("cell"))); return True
        if n.startswith(MS + "::set_"):
            ok = st.eq(sub(st.lin(i.ops[0]), atom("cell")))
            if last == "set_name":
                g = i.ops[1] if isinstance(i.ops[1], str) else None
                b = names.get((g or "")[1:])
                st.set("named", "?" if b is None else b.split(b"\0")[0].decode("latin1"))
                if st.checking: ob(i, ok, "another counter is named")
            else:
                st.set("val", last if is_const(st.poly.reduce(st.lin(i.ops[1]))) else "?")
                if st.checking: ob(i, ok and last == "set_int_value" and st.eq(st.lin(i.ops[1])), "the counter does not start at the integer 0")
            return True
        if n.startswith(L + "collector::"): return True
    def on_ret0(st, i, r):
        if not st.checking: return
        ob(i, st.get("added") == 1, "not exactly one counter is added")
        ob(i, st.get("named") in ("spans.dropped", "?"), "the counter is named %r" % st.get("named"))
        ob(i, st.get("val") == "set_int_value", "the counter does not start at the integer 0")
        ob(i, st.eq(sub(atom(cell(0, cnt)), atom("cell"))), "the counter kept is not the one added")
    Mem(f, init=init0, on_call=on_call0, on_ret=on_ret0, partition=True, keep=lambda st, i, b: True).run(); R.saw("functions")
    # set and get
    for nm, acc in (("set_num_dropped_spans", "set_int_value"), ("num_dropped_spans", "int_value")):
        f = one(u, EM + "::" + nm)
        obf = lambda i, c, m, f=f: R.ob("dropped", f.q, c, f.loc(i), m)
        def init(st): st.set("done", 0); st.assign("cell", atom(cell(0, cnt)))
        def on_call(st, i, c):
            n = cname(u, i)
            if n.startswith(MS + "::"):
                ok = n.endswith("::" + acc) and st.eq(sub(st.lin(i.ops[0]), atom("cell")))
                if acc == "set_int_value": ok = ok and st.eq(sub(st.lin(i.ops[1]), atom(arg(1))))
                else: st.assign("got", st.ai.v.lin(i.id))
                if st.checking: obf(i, ok, "not the dropped span counter's integer is accessed with the value given")
                st.set("done", min(2, st.get("done") + 1)); return True
        def on_ret(st, i, r):
            if not st.checking: return
            obf(i, st.get("done") >= 1, "the counter is not accessed")
            if acc == "int_value" and st.get("done") >= 1: obf(i, r is not None and st.eq(sub(r, atom("got"))), "the value returned is not the counter's")
        Mem(f, init=init, on_call=on_call, on_ret=on_ret, partition=True, keep=lambda st, i, b: True).run(); R.saw("functions")

def direct(R, u):
    W = Wire(u)
    mem = members(D)
    if len(mem) != 1: raise Broken(D + ": data member not recognised")
    off = mem[0]["off"]; dc = cell(0, off)
    def go(f, want, after, label):
        ob = lambda i, c, m: R.ob("direct", label, c, f.loc(i), m)
        def init(st): st.assign("d0", atom(dc)); st.set("w", ())
        def on_call(st, i, c): return W.call(st, i, c, cname(u, i))
        def on_ret(st, i, r):
            if not st.checking: return
            R.saw("exits")
            ob(i, W.same(st, want), "not exactly the given value is written at the stream's position, but " + W.shown(st))
            ob(i, st.eq(sub(atom(dc), after(st))), "the stream does not stand right behind what it wrote; facts: " + facts(st))
        Mem(f, init=init, on_call=on_call, on_ret=on_ret, partition=True).run(); R.saw("functions")
    for n in ("WriteTag", "WriteVarint32", "WriteVarint64"):
        go(one(u, D + "::" + n), [("v", atom("d0"), atom(arg(1)))], lambda st: add(atom("d0"), W.measure(st, atom(arg(1)))), D + "::" + n)
    go(one(u, D + "::WriteRaw"), [("raw", atom("d0"), atom(arg(2))), ("data", atom("d0"), atom(arg(1)))], lambda st: add(atom("d0"), atom(arg(2))), D + "::WriteRaw")
    f = one(u, D + "::DirectCodedOutputStream")
    def on_ret(st, i, r):
        if st.checking: R.ob("direct", f.q, st.eq(sub(atom(dc), atom(arg(1)))), f.loc(i), "the stream does not start at the data given")
    Mem(f, on_ret=on_ret).run()
    # for a stream that buffers, a large integer is an ordinary varint
    for f in some(u, L + "WriteBigVarint64", lambda f: COS in ptype(f, 0) or "CodedOutputStream" in ptype(f, 0) and "Direct" not in ptype(f, 0)):
        def on_call(st, i, c): return W.call(st, i, c, cname(u, i))
        def on_ret(st, i, r, f=f):
            if not st.checking: return
            R.ob("varint", f.q + "(CodedOutputStream)", W.same(st, [("v", atom(arg(0)), atom(arg(1)))]), f.loc(i), "not exactly the given value is written")
        Mem(f, on_call=on_call, on_ret=on_ret, partition=True).run()

def varint(R, u):
    off = members(D)[0]["off"]
    fs = [one(u, D + "::WriteBigVarint64")] + some(u, L + "WriteBigVarint64", lambda f: "Direct" in ptype(f, 0))
    for f in fs:
        label = f.q + ("(DirectCodedOutputStream)" if not f.q.startswith(D) else "")
        def ob(i, ok, m): R.ob("varint", label, ok, f.loc(i), m)
        cell_ = ("arg0", off); start = ("*", "arg0", off)
        def on_call(p, i, c, args):
            n = cname(u, i)
            m = n.split("::")[-1]
            if m in ("WriteVarint64ToArray", "WriteVarint32ToArray"):
                p.ev.append(("lib", args[1], args[0], i)); return P(("end", i.id), 0)
            if n.startswith(COS) or "google" in n: p.ev.append(("?", None, None, i))
        def on_ret(p, i, r):
            R.saw("paths")
            by = {}
            lib = None; bad = False
            for k, a, v, j in p.ev:
                if k == "?": bad = True
                elif k == "lib":
                    if lib is not None: bad = True
                    lib = (a, v, j)
                elif isinstance(a, P) and a.b == start and isinstance(a.k, int): by[a.k] = v
                elif isinstance(a, P) and a.b == "arg0" and a.k == off: pass
                elif isinstance(a, P) and isinstance(a.b, tuple) and a.b[0] == "end": bad = True
            fin = p.mem.get(cell_)
            n = len(by)
            rg = "for values from %#x to %#x" % (p.lo, p.hi)
            if bad or sorted(by) != list(range(n)): ob(i, False, "%s the bytes written are not consecutive" % rg); return
            for j in range(n - (0 if lib else 1)):
                v = by[j]
                ok = isinstance(v, S) and v.plain() and v.s == 7 * j and v.o & 0x7f == 0 and v.a & 0xff == 0xff and v.o & v.a & 0x80 == 0x80
                ob(i, ok, "%s byte %d is not bits %d to %d with the continuation bit" % (rg, j, 7 * j, 7 * j + 6))
            if lib:
                a, v, j = lib
                w32 = callee_of(j) and "Varint32" in callee_of(j)
                ok = isinstance(a, P) and a.b == start and a.k == n and isinstance(v, S) and v.plain() and v.o == 0 and v.s == 7 * n and (p.hi >> v.s) & ~v.a == 0 and (not w32 or p.hi >> v.s < 1 << 32)
                ob(j, ok, "%s the remaining bits are not written behind the bytes before" % rg)
                ob(j, n == 0 or p.lo >= 1 << 7 * n, "%s more bytes than necessary are written" % rg)
                ob(i, isinstance(fin, P) and fin.b == ("end", j.id) and fin.k == 0, "%s the stream does not stand behind what was written" % rg)
                return
            if n == 0: ob(i, False, "%s nothing is written" % rg); return
            v = by[n - 1]
            ok = isinstance(v, S) and v.plain() and v.s == 7 * (n - 1) and v.o & v.a == 0 and (p.hi >> v.s) & ~v.a == 0 and p.hi >> v.s < 0x80
            ob(i, ok, "%s the last byte is not the remaining bits, or continues" % rg)
            ob(i, n == 1 or p.lo >= 1 << 7 * (n - 1), "%s more bytes than necessary are written" % rg)
            ob(i, isinstance(fin, P) and fin.b == start and fin.k == n, "%s the stream does not stand behind what was written" % rg)
        Bits(f, 1, 64, on_call=on_call, on_ret=on_ret).run(); R.saw("functions")

def spans_header(R, u):
    f = one(u, L + "WriteReportRequestSpansHeader"); W = Wire(u)
    ob = lambda i, c, m: R.ob("header", f.q, c, f.loc(i), m)
    def init(st): st.set("w", ())
    def on_call(st, i, c): return W.call(st, i, c, cname(u, i))
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        b = atom(arg(2)); h = add(const(1), W.measure(st, b))
        p = sub(add(atom(arg(0)), atom(arg(1))), h)
        want = (("v", p, const(26)), ("v", add(p, const(1)), b))
        ob(i, W.same(st, want), "the header is not the spans' key and the body's size, ending at the end of the space given, but " + W.shown(st))
        ob(i, r is not None and st.eq(sub(r, h)), "the header's size returned is not what was written")
    Mem(f, init=init, on_call=on_call, on_ret=on_ret, on_instr=W.instr, partition=True).run(); R.saw("functions")

def chunk_header(R, u):
    f = one(u, L + "WriteHttpChunkHeader")
    def ob(i, ok, m): R.ob("header", f.q, ok, f.loc(i), m)
    P_ = ir.program()
    def on_ret(p, i, r):
        R.saw("paths")
        at = {}
        for k, a, v, j in p.ev:
            if k == "store" and isinstance(a, P) and a.b == "arg0":
                if isinstance(a.k, tuple) and a.k[0] == "+" and a.k[1] == ("arg", 1) and a.k[2] == 1: at[a.k[3]] = v
                else: ob(j, False, "a byte is written that does not depend on the end of the space given")
        ob(i, sorted(at) == list(range(-10, 0)), "the header does not end at the end of the space given")
        ob(i, at.get(-2) == 13 and at.get(-1) == 10, "the header does not end with CRLF")
        ok = isinstance(r, int) and r == 10
        ob(i, ok, "the header's size returned is not what was written")
        for d in range(8):
            v = at.get(-10 + d); good = False
            sh = 4 * (7 - d)
            if isinstance(v, tuple) and v[0] == "tab":
                t = table(P_.globals.get(v[1][1:], {}))
                if t is not None and isinstance(v[2], tuple):
                    s_, o, a, m, c = v[2]
                    if o == 0 and s_ <= sh and m > 0:
                        good = True
                        for x in range(0, 256 if a & 0xff == a else 0):
                            e = (x & a) * m + c
                            if not 0 <= e < len(t) or chr(t[e]).lower() != "%x" % ((x >> (sh - s_)) & 15): good = False; break
                        good = good and a & 0xff == a and (a >> (sh - s_)) & 15 == 15
            ob(i, good, "digit %d is not the hexadecimal digit of bits %d to %d of the body's size" % (d, sh, sh + 3))
    Bits(f, 2, 32, on_ret=on_ret).run(); R.saw("functions")

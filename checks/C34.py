"""Decides, byte by byte and on every path: what each constructor of IpAddress leaves in the address object (family, port in
network order, address bytes where that family keeps them, everything else zero), that setting the port changes only the
port, that two addresses compare equal exactly when family, port and address (IPv6: also flow and scope) agree, that an
address is converted to text and connected to with its own family's address bytes and size, and that a resolver's result
is read as the family it is."""
from lib import *
from contract import *
from checks.bytesim import Sim
import ir
RULES = {
    "construct": ("a constructor leaves a family and exactly that family's content in the address, everything else zero", 6),
    "port": ("setting the port stores it in network order and changes nothing else", 1),
    "equal": ("two addresses are equal exactly when family, port and address agree", 1),
    "text": ("an address is printed from its own family's address bytes into a buffer that is large enough", 1),
    "connect": ("a socket of the address's family is connected to it with that family's size", 1),
    "resolved": ("a resolver's result is read as the family it says it is", 1),
    "view": ("the address is handed out from its start, the family from the family field", 2),
}
L = "lightstep::"; A = L + "IpAddress"
V4, V6 = 2, 10
ADDR = {V4: range(4, 8), V6: range(8, 24)}
KEEP = {V4: range(0, 8), V6: range(0, 28)}
SIZE = {V4: 16, V6: 28}

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    ir.program().need("network/")
    u = ir.view("ip_address", [A + "::.*", L + "operator==", L + "operator<<"])
    R.assume("struct layouts and address family numbers are Linux's; inet_pton and inet_ntop do what POSIX says")
    if sum(1 for f in u.roots if f.q == A + "::IpAddress") < 6: raise Broken("constructors of IpAddress not found")
    for f in u.roots:
        if f.q == A + "::IpAddress": construct(R, u, f)
    port(R, u, one(u, A + "::set_port"))
    equal(R, u, one(u, L + "operator==", lambda f: all("IpAddress" in str(t) for t in (f.pt or [])[1:])))
    text(R, u, one(u, L + "operator<<", lambda f: "IpAddress" in str(f.pt)))
    views(R, u)
    connect(R); resolved(R)

def params(f): return [str(t) for t in (f.pt or [])]
def kind(f):
    p = " ".join(params(f)[2:])
    for k in ("in6_addr", "in_addr", "sockaddr", "char"):
        if re.search(r"\b%s\b" % k, p): return k
    return "IpAddress" if "IpAddress" in p else "none" if not p else p

def zero(bs): return all(x == ("k", 0) for x in bs)
def rng(p, s, obj, r): return [s.byte(p, obj, k) for k in r]
def construct(R, u, f):
    k = kind(f); inst_ = "%s(%s)" % (f.q, ", ".join(params(f)[2:])); t = this_arg(f); this = arg(t); src = arg(t + 1)
    if k == "IpAddress": return       # copies are the compiler's
    def ob(i, ok, m): R.ob("construct", inst_, ok, f.loc(i), m)
    def on_call(p, i, c):
        if c == "inet_pton":
            fam = s.known(p, s.bytes_of(p, i.ops[0], "i32")); d, dk = s.addr(p, i.ops[2]); a, ak = s.addr(p, i.ops[1])
            p.events.append(("pton", fam, d, dk, a == src and ak == 0, i))
            return tuple(("pton", i.id, j) for j in range(4))
        return None
    def on_ret(p, i, r):
        R.saw("paths")
        # an inet_pton that succeeded has filled in its target
        for e in p.events:
            if e[0] == "pton":
                ok = s.known(p, tuple(("pton", e[5].id, j) for j in range(4))) == 1
                n = 4 if e[1] == V4 else 16
                if ok:
                    for j in range(n): p.mem[(e[2], e[3] + j)] = ("addr", e[1], j)
                    if not e[4]: ob(e[5], False, "another text than the one given is parsed")
        fam = rng(p, s, this, range(0, 2))
        F = s.known(p, fam)
        if k == "sockaddr":
            G = s.known(p, tuple(("in", src, j) for j in range(2)))
            if G not in (V4, V6): return          # not an internet address: excluded by the constructor's contract
            ob(i, F == G, "the family is not the given address's")
            ok = all(s.byte(p, this, j) == ("in", src, j) or (j in (0, 1) and F == G) for j in KEEP[G])
            ob(i, ok, "the given %s address is not taken over completely" % ("IPv4" if G == V4 else "IPv6"))
            ob(i, all(s.byte(p, this, j) == ("k", 0) for j in range(SIZE[G], 128)) and all(s.byte(p, this, j) in (("k", 0), ("in", src, j)) for j in range(8, 16)), "what lies beyond the given address is not zero")
            return
        want = {"in_addr": V4, "in6_addr": V6, "none": V4}.get(k)
        if k == "char":
            good = [e for e in p.events if e[0] == "pton" and s.known(p, tuple(("pton", e[5].id, j) for j in range(4))) == 1]
            if not good: ob(i, False, "an address is constructed from text that is none"); return
            want = good[-1][1]
        ob(i, F == want, "the family is %s, not %s" % (F, {V4: "IPv4", V6: "IPv6"}.get(want)))
        if want not in ADDR: return
        content = rng(p, s, this, ADDR[want])
        if k == "none": ok = True
        elif k == "char": ok = content == [("addr", want, j) for j in range(len(content))]
        else: ok = content == [("in", src, j) for j in range(len(content))]
        ob(i, ok, "the address bytes are not where this family keeps them")
        rest = [j for j in range(2, 128) if j not in ADDR[want] or k == "none"]
        ports = [x for x in params(f)[2:] if "short" in x]
        if ports:
            n = t + 2
            ob(i, rng(p, s, this, range(2, 4)) == [("v", arg(n), 1), ("v", arg(n), 0)], "the port is not stored in network order")
            rest = [j for j in rest if j not in (2, 3)]
        bad = [j for j in rest if s.byte(p, this, j) != ("k", 0)]
        ob(i, not bad, "bytes %s of the address are not zero" % bad[:6])
    s = Sim(f, on_call=on_call, on_ret=on_ret); s.run()
    R.saw("functions analysed")

def port(R, u, f):
    t = this_arg(f); this = arg(t)
    def ob(i, ok, m): R.ob("port", f.q, ok, f.loc(i), m)
    seen = set()
    def on_ret(p, i, r):
        R.saw("paths")
        F = s.known(p, tuple(("in", this, j) for j in range(2)))
        now = {k for (o, k), x in p.mem.items() if o == this and x != ("in", this, k)}
        if F in (V4, V6):
            seen.add(F)
            ob(i, rng(p, s, this, range(2, 4)) == [("v", arg(t + 1), 1), ("v", arg(t + 1), 0)], "the port is not stored in network order")
            ob(i, now <= {2, 3}, "more than the port is changed")
        elif any(x[0] == "v" for x in rng(p, s, this, range(2, 4))):       # without regard to family, which both keep in one place
            seen.update((V4, V6))
            ob(i, rng(p, s, this, range(2, 4)) == [("v", arg(t + 1), 1), ("v", arg(t + 1), 0)] and now <= {2, 3}, "the port is not stored in network order")
        else: ob(i, now <= {2, 3}, "more than the port is changed")
    s = Sim(f, on_ret=on_ret); s.run(); R.saw("functions analysed")
    ob(None, seen == {V4, V6}, "the port of a family is not set")

def equal(R, u, f):
    a, b = arg(0), arg(1)
    def ob(i, ok, m): R.ob("equal", f.q, ok, f.loc(i), m)
    def on_call(p, i, c):
        if c in ("memcmp", "bcmp") and isinstance(i.ops[2], int):
            x, xk = s.addr(p, i.ops[0]); y, yk = s.addr(p, i.ops[1])
            if {x, y} == {a, b}: return tuple(("mc", xk, yk, i.ops[2], j) for j in range(4))
        if c == "inet_ntop": return None
    def facts_of(p):
        E, D = set(), []        # bytes known equal; sets of bytes of which one is known to differ
        fam = {}
        for o in (a, b): fam[o] = s.known(p, tuple(("in", o, j) for j in range(2)))
        if fam[a] is not None and fam[a] == fam[b]: E |= {0, 1}
        for eq, d in p.facts:
            ks = set(); good = True
            for x, y in d:
                if x[0] == "in" and y[0] == "in" and {x[1], y[1]} == {a, b} and x[2] == y[2]: ks.add(x[2])
                elif "mc" in (x[0], y[0]):
                    m = x if x[0] == "mc" else y; z = y if m is x else x
                    if z == ("k", 0) and m[1] == m[2]: ks |= set(range(m[1], m[1] + m[3]))
                    else: good = False
                elif x[0] == "in" and y[0] == "k" and x[2] in (0, 1):
                    o = b if x[1] == a else a
                    if eq: continue
                    if fam[o] is not None and (fam[o] >> 8 * x[2]) & 255 == y[1]: ks |= {0, 1}
                    else: good = False
                else: good = False
            if eq: E |= ks if good or ks else set()
            elif good and ks: D.append(ks)
        return E, D, fam
    def on_ret(p, i, r):
        R.saw("paths")
        for truth in (True, False):
            q = p.copy(); o = ret_op(i)
            if not s.assume(q, o, truth): continue
            E, D, fam = facts_of(q)
            F = fam[a] if fam[a] is not None else fam[b]
            if truth:
                if F not in (V4, V6) :
                    if F is None: ob(i, False, "equality is decided without regard to the family")
                    continue
                need = {0, 1, 2, 3} | set(ADDR[F])
                ob(i, need <= E, "addresses count as equal although bytes %s were not compared" % sorted(need - E)[:6])
            else:
                if F is None and not D: continue
                if F is not None and F not in (V4, V6): continue
                ok = any(d <= set(KEEP[F] if F else range(0, 8)) for d in D)
                ob(i, ok, "addresses count as different because of bytes that are not part of an %s address" % ("IPv4" if F == V4 else "IPv6"))
    s = Sim(f, on_call=on_call, on_ret=on_ret); s.run(); R.saw("functions analysed")

def text(R, u, f):
    o = arg(1)
    def ob(i, ok, m): R.ob("text", f.q, ok, f.loc(i), m)
    seen = set()
    def on_call(p, i, c):
        q = cname(u, i)
        if c == "inet_ntop":
            F = s.known(p, tuple(("in", o, j) for j in range(2))); af = s.known(p, s.bytes_of(p, i.ops[0], "i32"))
            if af is None and s.bytes_of(p, i.ops[0], "i32")[:2] == (("in", o, 0), ("in", o, 1)): af = F
            x, xk = s.addr(p, i.ops[1]); y, yk = s.addr(p, i.ops[2]); n = s.known(p, s.bytes_of(p, i.ops[3], "i32"))
            ob(i, F is not None and af == F, "the address is printed as another family than its own")
            ob(i, x == o and F in ADDR and xk == ADDR[F][0], "not the family's address bytes are printed")
            b = f.ins.get(y); size = b.d.get("size") if b is not None and b.op == "alloca" else None
            ob(i, size is not None and n is not None and yk + n <= size, "the buffer is smaller than said")
            ob(i, n is not None and n >= {V4: 16, V6: 46}.get(F, 46), "the buffer is too small for the longest address")
            p.events.append(("ntop", F)); seen.add(F)
            return ("ptr", y, yk)
        if "operator<<" in q and len(i.ops) == 2:
            F = s.known(p, tuple(("in", o, j) for j in range(2)))
            if F in (V4, V6):
                x, xk = s.addr(p, i.ops[1])
                ok = any(e == ("ntop", F) for e in p.events) and f.ins.get(x) is not None and f.ins[x].op == "alloca"
                ob(i, ok, "something other than the address is printed"); p.events.append(("out",))
            return ("ptr", arg(0), 0)
        return None
    def on_ret(p, i, r):
        R.saw("paths")
        F = s.known(p, tuple(("in", o, j) for j in range(2)))
        if F in (V4, V6): ob(i, ("out",) in p.events, "the address is not printed")
    s = Sim(f, on_call=on_call, on_ret=on_ret); s.run(); R.saw("functions analysed")
    ob(None, {V4, V6} <= seen, "a family's addresses are not printed")

def views(R, u):
    for n in ("addr", "ipv4_address", "ipv6_address"):
        for f in u.byq.get(A + "::" + n, []):
            v = Values(f)
            for i in final_ret(f): R.ob("view", f.q, v.op(ret_op(i)) == atom("arg0"), f.loc(i), "not the address object's start is handed out")
    f = one(u, A + "::family")
    def on_ret(p, i, r): R.ob("view", f.q, r[:2] == (("in", "arg0", 0), ("in", "arg0", 1)) and zero(r[2:]), f.loc(i), "not the family field is returned")
    s = Sim(f, on_ret=on_ret); s.run()

def connect(R):
    S = L + "Socket"
    u = ir.view("ip_connect", [L + "Connect"], barriers=[S + "::.*", L + "GetErrorCodeMessage"])
    f = one(u, L + "Connect"); t = this_arg(f); o = arg(t)
    def ob(i, ok, m): R.ob("connect", f.q, ok, f.loc(i), m)
    seen = set()
    def on_call(p, i, c):
        q = cname(u, i)
        fam = (("in", o, 0), ("in", o, 1), ("k", 0), ("k", 0))
        F = s.known(p, fam[:2])
        if q == S + "::Socket" and len(i.ops) == 3 or c == "socket":
            k = 1 if q == S + "::Socket" else 0
            b = s.bytes_of(p, i.ops[k], "i32"); ty = s.known(p, s.bytes_of(p, i.ops[k + 1], "i32"))
            ob(i, (b == fam or F is not None and s.known(p, b) == F), "the socket is of another family than the address")
            ob(i, ty is not None and ty & 0xf == 1, "the socket is not a stream socket")
        if q == S + "::Connect" or c == "connect":
            x, xk = s.addr(p, i.ops[1]); b = s.bytes_of(p, i.ops[2], "i64"); n = s.known(p, b)
            ob(i, x == o and xk == 0, "another address is connected to")
            ob(i, F in SIZE and n == SIZE[F], "the size handed over is not that of the address's family"); seen.add(F)
        return None
    stopping = lambda p, i: i.op == "landingpad"
    s = Sim(f, on_call=on_call, stop=stopping); s.run(); R.saw("paths", s.paths); R.saw("functions analysed")
    ob(None, {V4, V6} <= seen, "a family's addresses are not connected to")

def resolved(R):
    q = [x for x in ir.program().byq if x.endswith("AresDnsResolution::ForeachIpAddress")]
    if not q: raise Broken("AresDnsResolution::ForeachIpAddress not found")
    u = ir.view("ares_resolution", [re.escape(q[0])], barriers=[A + "::IpAddress"])
    f = one(u, q[0])
    def ob(i, ok, m): R.ob("resolved", f.q, ok, f.loc(i), m)
    fams = {}
    def on_load(st, i):
        if i.ty == "i32":
            l = m.ptr(st, i.ops[0])
            if l is not None and l[2] == 16:        # hostent::h_addrtype
                st.poly.add_eq(sub(st.ai.v.lin(i.id), atom(("fam",))), prefer=i.id); return True
    def on_call(st, i, c):
        if cname(u, i) != A + "::IpAddress": return None
        cal = ir.program().fns.get(c) or u.fns.get(c)
        k = "in6_addr" if "8in6_addr" in c else "in_addr" if "7in_addr" in c else None
        if k and st.checking:
            R.saw("addresses read")
            want = V4 if k == "in_addr" else V6; fams[want] = 1
            ob(i, st.eq(add(atom(("fam",)), const(-want))), "an address is read as %s although the result may be of another family" % ("IPv4" if want == V4 else "IPv6"))
        return True
    m = Mem(f, on_call=on_call, on_load=on_load, keep=lambda st, i, b: True); m.run(); R.saw("functions analysed")
    ob(None, set(fams) == {V4, V6}, "a family of results is not read")

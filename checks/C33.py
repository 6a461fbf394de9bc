"""Decides the sorted map's insertion and lookup against std::lower_bound's contract for an opaque key type (found entry,
position of a new entry, which value ends up where), that the order used is the keys' own strict order, and that the
endpoint table of the resolver (sorted, duplicate-free host list plus one index and port per endpoint, in order) is built
and searched under one and the same order."""
from lib import *
from contract import *
import ir
RULES = {
    "order": ("the map is searched with its keys' own order, entry against key", 1),
    "baggage": ("baggage keys are ordered by their whole content", 1),
    "search": ("the whole map is searched, for the key given", 2),
    "insert": ("a key that is present has its value replaced, another is put where the search says, with its value", 2),
    "find": ("the entry found is returned exactly when its key is the one asked for, the end otherwise", 2),
    "only": ("nothing but insertion changes the map", 1),
    "hosts": ("all hosts are listed, then sorted, then freed of duplicates, before any is looked up", 1),
    "endpoints": ("every endpoint gets its own host's position and its own port, in order", 1),
    "case": ("hosts are sorted, compared and looked up in one order, without regard to case", 3),
    "strcase": ("the case-insensitive comparison is the system's, of both strings in order", 1),
}
L = "lightstep::"; M = L + "FlatMap::"
LB = ["std::lower_bound"]
STRINGS = ["std::__cxx11::basic_string::.*"]

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    ir.program().need("common/platform/", "stream_recorder/utility")
    R.assume("std::lower_bound, std::sort, std::unique and std::vector do what they say; the key type's == and < agree")
    flatmap(R); baggage(R); separate(R)

def reached(u, name, want, depth=12):
    """functions outside std that a library algorithm's instance calls (its comparator)"""
    P = ir.program(); seen = set(); out = []; st = [(name, 0)]
    while st:
        n, d = st.pop()
        if n in seen or d > depth: continue
        seen.add(n)
        f = prog_fn(n)
        if f is None or f.is_decl: continue
        for i in f.all_instrs():
            if i.op in ("call", "invoke"):
                c = callee_of(i)
                if not c: continue
                g = prog_fn(c)
                q = g.q if g is not None else c
                if g is not None and want(q): out.append((q, g))
                else: st.append((c, d + 1)) if not c.startswith("llvm.") else None
    return out

def truth(st, o, t):
    s2 = State(st.ps, st.poly.copy(), st.ai, False); st.ai.assume(s2, o, t)
    return s2

# ---- the map -------------------------------------------------------------------
def flatmap(R):
    u = ir.view("flatmap", [M + "(insert_or_assign|find|lower_bound.*)"], barriers=LB + ["std::vector::(emplace|insert|erase|push_back|emplace_back)"], inlines=["std::less::.*", "std::forward_as_tuple"])
    isv = lambda f: "verif::Key" in (f.scope or "")
    rec = [r for k, r in ir.program().rec.items() if k.startswith("std::pair<verif::Key, verif::Val")]
    if not rec: raise Broken("the map's entry type not found")
    second = [e["off"] for e in rec[0]["els"] if e.get("n") == "second"][0]; size = rec[0]["size"] if "size" in rec[0] else 8
    cmps = {}
    for name, mut in (("insert_or_assign", True), ("find", False)):
        method(R, u, one(u, M + name, isv), mut, second, size, cmps)
    for n, i in cmps.items():
        fs = [g for q, g in reached(u, n, lambda q: not q.startswith(("std::", "__gnu", "_Z", "__")) and not q.startswith("verif::"))]
        if not fs: raise Broken("the map's comparator not found")
        for g in {g.name: g for g in fs if g is not None}.values(): comparator(R, g)
    # who else changes the vector
    P = ir.program(); seen = 0
    rec = P.record(L + "FlatMap")
    for f in P.repo_fns():
        if (f.q or "").startswith(M) and isv(f) and not is_special(f):
            seen += 1
            nm = strip_templates(f.dname or "")
            if nm in ("insert_or_assign", "lower_bound") or "lambda" in f.q: continue
            for i in f.all_instrs():
                if i.op in ("call", "invoke") and re.match(r"std::vector::(emplace|insert|erase|push_back|pop_back|clear|resize|assign|swap|operator=)", cname(P, i)):
                    R.ob("only", f.q, False, f.loc(i), "the map is changed outside its insertion")
    R.ob("only", L + "FlatMap", seen >= 2, "src/common/flat_map.h", "")

def method(R, u, f, mut, second, size, cmps):
    t = this_arg(f); B = cell(t, 0); E = cell(t, 8); key = atom(arg(t + 1))
    rule = "insert" if mut else "find"
    def ob(r, st, i, ok, m):
        if st.checking: R.ob(r, f.q, ok, f.loc(i), m + ("" if ok else "; facts: " + facts(st)))
    def found(st): return st.get("it") == 1 and (st.eq(add(atom("eq"), const(-1))) or st.eq(atom("lt"))) 
    def absent(st): return st.get("it") == 1 and (st.eq(sub(atom("it"), atom(E))) or st.eq(atom("eq")) or st.eq(add(atom("lt"), const(-1))))
    def init(st): st.set("it", 0); st.set("put", 0)
    def iskey(st, e): return st.eq(sub(e, key))
    def isit(st, e): return st.get("it") == 1 and st.eq(sub(e, atom("it")))
    def on_call(st, i, c):
        q = cname(u, i)
        if c.startswith("llvm."): return None
        if q in LB:
            ob("search", st, i, st.eq(sub(st.lin(i.ops[0]), atom(B))) and st.eq(sub(st.lin(i.ops[1]), atom(E))), "not the whole map is searched")
            ob("search", st, i, iskey(st, st.lin(i.ops[2])), "another key than the one given is searched for")
            cmps[c] = i
            st.assign("it", st.ai.v.lin(i.id)); st.set("it", 1); st.havoc("eq"); st.havoc("lt")
            st.poly.add_ge(sub(atom(E), atom("it"))); st.poly.add_ge(sub(atom("it"), atom(B)))
            return True
        if q == "verif::operator==":
            a, b = st.lin(i.ops[0]), st.lin(i.ops[1])
            if (isit(st, a) and iskey(st, b)) or (isit(st, b) and iskey(st, a)):
                ob(rule, st, i, st.ne(sub(atom("it"), atom(E))), "the entry behind the last one is looked at")
                st.assign("eq", st.ai.v.lin(i.id))
            return True
        if q == "verif::operator<":
            a, b = st.lin(i.ops[0]), st.lin(i.ops[1])
            if isit(st, b) and iskey(st, a):
                ob(rule, st, i, st.ne(sub(atom("it"), atom(E))), "the entry behind the last one is looked at")
                st.assign("lt", st.ai.v.lin(i.id))
            return True
        if mut and q == "verif::Val::operator=":
            d, s = st.lin(i.ops[0]), st.lin(i.ops[1])
            ob("insert", st, i, st.eq(sub(d, add(atom("it"), const(second)))) and found(st) and st.ne(sub(atom("it"), atom(E))), "another entry's value than the key's is replaced")
            ob("insert", st, i, st.eq(sub(s, atom(arg(t + 2)))), "the value is replaced by another than the one given")
            st.set("put", 1); return True
        if q in ("verif::Key::Key",) and len(i.ops) == 2:
            l = m.ptr(st, i.ops[0])
            if l is not None and iskey(st, st.lin(i.ops[1])): st.set(("k", str(l[1])), l[2])
            return True
        if q in ("verif::Val::Val",) and len(i.ops) == 2:
            l = m.ptr(st, i.ops[0])
            if l is not None and st.eq(sub(st.lin(i.ops[1]), atom(arg(t + 2)))): st.set(("v", str(l[1])), l[2])
            return True
        if q.startswith("std::vector::") and len(i.ops) and st.eq(sub(st.lin(i.ops[0]), atom(arg(t)))):
            n = q.split("::")[-1]
            if n in ("emplace", "insert") and mut:
                ob("insert", st, i, isit(st, st.lin(i.ops[1])), "the entry is not put where the search says")
                ob("insert", st, i, absent(st), "a second entry is made for a key that may be present")
                if len(i.ops) == 4: ok = iskey(st, st.lin(i.ops[2])) and st.eq(sub(st.lin(i.ops[3]), atom(arg(t + 2))))
                else:
                    l = m.ptr(st, i.ops[2])
                    ok = l is not None and st.get(("k", str(l[1]))) == l[2] and st.get(("v", str(l[1]))) == l[2] + second
                ob("insert", st, i, ok, "the new entry is not made of the key and value given")
                st.assign("new", st.ai.v.lin(i.id)); st.set("put", 2); return True
            ob("insert" if mut else "only", st, i, False, "the map is changed by %s" % n)
            return True
        return None
    def on_instr(st, i):
        if i.op == "sdiv" and i.ops[1] == size and st.get("it") == 1:
            if st.eq(sub(st.lin(i.ops[0]), sub(atom("it"), atom(B)))): st.poly.add_eq(sub(scale(st.ai.v.lin(i.id), size), sub(atom("it"), atom(B))))
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        if st.get("it") == 0: raise Broken("%s does not search with std::lower_bound" % f.q)
        if mut:
            p = st.get("put")
            ob("insert", st, i, p != 0, "nothing is inserted")
            ob("insert", st, i, p == 0 or st.eq(sub(r, atom("it" if p == 1 else "new"))), "not the entry inserted is returned")
        elif st.eq(sub(r, atom(E))): ob("find", st, i, absent(st), "a key that may be present is not found")
        else: ob("find", st, i, isit(st, r) and found(st), "an entry of another key is returned")
    m = Mem(f, init=init, on_call=on_call, on_instr=on_instr, on_ret=on_ret, keep=lambda st, i, b: True, partition=True)
    m.run(); R.saw("functions analysed")

def comparator(R, g):
    u = ir.view("flatmap_cmp", [re.escape(g.q)], inlines=["std::less::.*"])
    fs = [f for f in u.roots if stem(f.name) == stem(g.name)]
    if not fs: raise Broken("comparator %s cannot be analysed" % g.q)
    f = fs[0]; n = len(f.args)
    a, b = arg(n - 2), arg(n - 1)
    def on_call(st, i, c):
        if cname(u, i) == "verif::operator<":
            ok = st.eq(sub(st.lin(i.ops[0]), atom(a))) and st.eq(sub(st.lin(i.ops[1]), atom(b)))
            if ok: st.assign("less", st.ai.v.lin(i.id)); st.set("less", 1)
        return True
    def on_ret(st, i, r):
        if not st.checking: return
        ok = st.get("less") == 1 and not (truth(st, ret_op(i), True).poly.feasible() and not truth(st, ret_op(i), True).eq(add(atom("less"), const(-1))))
        s0 = truth(st, ret_op(i), False)
        ok = ok and (not s0.poly.feasible() or s0.eq(atom("less")))
        R.ob("order", f.q, ok, f.loc(i), "the order is not that of the keys, entry first")
    Mem(f, on_call=on_call, on_ret=on_ret, keep=lambda st, i, b: True, partition=True).run(); R.saw("functions analysed")

def baggage(R):
    C = L + "StringViewComparison"
    u = ir.view("baggage_cmp", [C + "::operator\\(\\)"], inlines=["opentracing::v2::string_view::.*"], barriers=["std::lexicographical_compare"])
    f = one(u, C + "::operator()"); n = len(f.args) - 4
    la, lp, ra, rp = [atom(arg(n + k)) for k in range(4)]      # (length, data) of each side
    def on_call(st, i, c):
        if cname(u, i) == "std::lexicographical_compare":
            e = [st.lin(o) for o in i.ops]
            for (x, xn), (y, yn) in (((la, lp), (ra, rp)), ((lp, la), (rp, ra))):
                if len(e) == 4 and st.eq(sub(e[0], x)) and st.eq(sub(e[1], add(x, xn))) and st.eq(sub(e[2], y)) and st.eq(sub(e[3], add(y, yn))):
                    st.assign("less", st.ai.v.lin(i.id)); st.set("less", 1)
            return True
        return None
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        s1, s0 = truth(st, ret_op(i), True), truth(st, ret_op(i), False)
        ok = st.get("less") == 1 and (not s1.poly.feasible() or s1.eq(add(atom("less"), const(-1)))) and (not s0.poly.feasible() or s0.eq(atom("less")))
        ok = ok or any(st.ne(sub(x, y)) and not any(k in st.poly.reduce(r) for k in ()) for x, y in ((la, ra),)) and is_const(st.poly.reduce(r))
        R.ob("baggage", f.q, ok, f.loc(i), "keys are not ordered by their whole content")
    Mem(f, on_call=on_call, on_ret=on_ret, keep=lambda st, i, b: True, partition=True).run(); R.saw("functions analysed")

# ---- the endpoint table ------------------------------------------------------------
def separate(R):
    q = L + "SeparateEndpoints"
    u = ir.view("separate", [q, L + "StrCaseCmp"], barriers=LB + ["std::upper_bound", "std::sort", "std::stable_sort", "std::unique", "_ZSt(4sort|11stable_sort|6unique|11lower_bound|11upper_bound).*", "std::vector::(emplace_back|push_back|erase|insert|emplace|reserve|resize)"] + STRINGS)
    f = one(u, q); t = this_arg(f)
    g = one(u, L + "StrCaseCmp")
    def sret(st, i, r):
        if st.checking: R.ob("strcase", g.q, st.get("c") == 1 and st.eq(sub(r, atom("c"))), g.loc(i), "the result is not that of comparing the two strings")
    def scall(st, i, c):
        if c == "strcasecmp" and st.eq(sub(st.lin(i.ops[0]), atom(arg(0)))) and st.eq(sub(st.lin(i.ops[1]), atom(arg(1)))): st.assign("c", st.ai.v.lin(i.id)); st.set("c", 1)
        return True
    Mem(g, on_call=scall, on_ret=sret).run()
    Eb, Ee = cell(t, 0), cell(t, 8)
    size = 40
    cm = {}
    def ob(r, st, i, ok, m_):
        if st.checking: R.ob(r, f.q, ok, f.loc(i), m_ + ("" if ok else "; facts: " + facts(st)))
    def vec(st, o):
        l = m.ptr(st, o)
        return None if l is None else (str(l[1]), l[2], l[1])
    def alg(c):
        x = re.match(r"_ZSt\d+(sort|stable_sort|unique|lower_bound|upper_bound)", c)
        return x.group(1) if x else None
    def rng(st, i):
        """the vector whose begin and end are given"""
        for (k, off) in list(st.get("vecs")):
            b = [x for x in m.bases(st) if str(x) == k]
            if b and st.eq(sub(st.lin(i.ops[0]), atom(mvar(b[0], off)))) and st.eq(sub(st.lin(i.ops[1]), atom(mvar(b[0], off + 8)))): return (k, off)
        return None
    def init(st):
        st.set("vecs", ()); st.assign("n", {}); st.assign("m", {}); st.assign("k", {})
        st.poly.add_ge(atom("k0")); st.poly.add_eq(sub(sub(atom(Ee), atom(Eb)), scale(atom("k0"), size)))
        st.set("host", None); st.set("tab", None); st.set("phase", "fill"); st.set("lb", 0)
    def names(st, e):
        """(endpoint distance from the first in bytes) of a string whose characters are meant"""
        return sub(e, atom(Eb))
    def is_string_of(st, o, cnt):
        """o: a char* ; is it endpoint number cnt's host?"""
        x = f.val(o)
        if x is None: return False
        return st.eq(sub(atom(("str", x.id)), scale(atom(cnt), size))) if st.get(("s", x.id)) else False
    def cellstr(st, o):
        """the char* stored at address o"""
        l = m.ptr(st, o)
        return None if l is None else l
    def on_call(st, i, c):
        qn = cname(u, i)
        if c.startswith("llvm."): return None
        if re.match(r"std::__cxx11::basic_string::(c_str|data)$", qn):
            st.assign(("str", i.id), sub(st.lin(i.ops[0]), atom(Eb))); st.assign(("sv", i.id), st.ai.v.lin(i.id))
            st.set(("s", i.id), 1); return True
        a = alg(c) or (qn[5:] if qn in ("std::sort", "std::stable_sort", "std::unique", "std::lower_bound", "std::upper_bound") else None)
        if a:
            v = rng(st, i); cm.setdefault(a, {})[c] = i
            if a in ("sort", "stable_sort"):
                if v is not None and st.get("host") is None and st.eq(atom("k0")): st.set("host", v)
                ob("hosts", st, i, v is not None and st.get("host") == v, "something else than the whole host list is sorted")
                ob("hosts", st, i, st.eq(sub(atom("n"), atom("k0"))), "the host list is sorted before it is complete")
                if st.get("phase") == "fill": st.set("phase", "sorted")
            elif a == "unique":
                ob("hosts", st, i, v is not None and st.get("host") == v and st.get("phase") == "sorted", "duplicates are looked for in something else than the whole sorted host list")
                st.assign("uniq", st.ai.v.lin(i.id)); st.set("phase", "uniq")
            else:
                ob("hosts", st, i, v is not None and st.get("host") == v, "something else than the whole host list is searched")
                ob("hosts", st, i, st.get("phase") == "ready", "a host is looked up before the list is sorted and free of duplicates")
                ob("endpoints", st, i, a == "lower_bound", "the position after the endpoint's host is looked up")
                ob("endpoints", st, i, pointee(st, i.ops[2], "m"), "another endpoint's host is looked up")
                b = [x for x in m.bases(st) if v and str(x) == v[0]]
                if b: st.assign("pos", sub(st.ai.v.lin(i.id), atom(mvar(b[0], v[1])))); st.set("lb", 1)
            return True
        if qn.startswith("std::vector::") and i.ops:
            n = qn.split("::")[-1]; v = vec(st, i.ops[0]); src = i.ops[1] if len(i.ops) > 1 else None
            if v is None: return None
            k = v[:2]
            if n == "vector" and len(i.ops) == 1:
                st.set("vecs", tuple(sorted(set(st.get("vecs")) | {k}))); return True
            if n == "vector" and len(i.ops) == 2 or n == "operator=":
                w = vec(st, src)
                for role in ("host", "tab"):
                    if w is not None and st.get(role) == w[:2]: st.set(role, k)
                st.set("vecs", tuple(sorted(set(st.get("vecs")) | {k})))
                return True
            if n == "reserve": forget(st, v); return True
            if n == "~vector": return True
            if n in ("emplace_back", "push_back"):
                two = len(i.ops) == 3
                l = m.ptr(st, src)
                if not two and st.get("host") in (None, k) and st.get("phase") == "fill" and pointee(st, src, "n"):
                    st.set("host", k); st.assign("n", add(atom("n"), const(1))); forget(st, v); return True
                if st.get("host") == k or st.get("host") is None:
                    ob("hosts", st, i, False, "something else than the next endpoint's host is put into the host list"); st.set("host", k); forget(st, v); return True
                ob("endpoints", st, i, st.get("tab") in (None, k), "the endpoints go to more than one list"); st.set("tab", k)
                if two:
                    idx = l is not None and index_ok(st, atom(mvar(l[1], l[2])))
                    p = st.lin(i.ops[2]); port = st.eq(sub(sub(p, atom(Eb)), add(scale(atom("m"), size), const(32))))
                    l2 = m.ptr(st, i.ops[2])
                    if not port and l2 is not None: port = st.eq(sub(atom(mvar(l2[1], l2[2])), atom("portv"))) and st.get("pv") == 1
                else:
                    idx = l is not None and index_ok(st, atom(mvar(l[1], l[2])))
                    port = l is not None and st.get("pv") == 1 and st.eq(sub(atom(mvar(l[1], l[2] + 4)), atom("portv")))
                ob("endpoints", st, i, idx, "not the position of the endpoint's host is recorded")
                ob("endpoints", st, i, port, "not the endpoint's port is recorded")
                st.assign("m", add(atom("m"), const(1))); st.set("lb", 0); st.set("pv", 0); forget(st, v); return True
            if n == "erase":
                if st.get("host") == k:
                    b = v[2]
                    ok = st.get("phase") == "uniq" and len(i.ops) == 3 and st.eq(sub(st.lin(i.ops[1]), atom("uniq"))) and st.eq(sub(st.lin(i.ops[2]), atom(mvar(b, v[1] + 8))))
                    ob("hosts", st, i, ok, "something else than the duplicates behind the unique hosts is erased")
                    st.set("phase", "ready"); forget(st, v)
                return True
            return None
        return None
    def forget(st, v):
        for o in (0, 8, 16): m.drop(st, mvar(v[2], v[1] + o))
    def pointee(st, o, cnt):
        """does the char* stored at address o belong to endpoint number cnt?"""
        l = m.ptr(st, o)
        if l is None: return False
        for x in f.all_instrs():
            if st.get(("s", x.id)) and st.eq(sub(atom(l), atom(("sv", x.id)))) and st.eq(sub(atom(("str", x.id)), scale(atom(cnt), size))): return True
        return False
    def index_ok(st, e): return st.get("lb") == 1 and st.eq(sub(scale(e, 8), atom("pos")))
    def on_load(st, i):
        if i.ty == "i16":
            p = st.lin(i.ops[0])
            if st.eq(sub(sub(p, atom(Eb)), add(scale(atom("m"), size), const(32)))): st.assign("portv", st.ai.v.lin(i.id)); st.set("pv", 1)
        return None
    def on_store(st, i):
        if i.op != "store": return None
        a, b = st.ai.v.unpack(i.ops[0], 0, 32), st.ai.v.unpack(i.ops[0], 32, 16)        # a pair kept in one register
        l = m.ptr(st, i.ops[1])
        if a is None or b is None or l is None: return None
        m.set(st, mvar(l[1], l[2]), st.lin(a)); m.set(st, mvar(l[1], l[2] + 4), st.lin(b)); return True
    def on_instr(st, i):
        if i.op == "sdiv" and i.ops[1] == 8 and st.get("lb") == 1 and st.eq(sub(st.lin(i.ops[0]), atom("pos"))): st.poly.add_eq(sub(scale(st.ai.v.lin(i.id), 8), atom("pos")))
        if i.op in ("trunc",) and i.ty == "i32": st.poly.add_eq(sub(st.ai.v.lin(i.id), st.lin(i.ops[0])))
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        h, tb = st.get("host"), st.get("tab")
        ob("hosts", st, i, st.get("phase") == "ready" or st.eq(atom("k0")), "the host list is handed out unsorted or with duplicates")
        ob("hosts", st, i, h in (("arg0", 0),) or (h is None and st.eq(atom("k0"))), "not the host list is handed out")
        ob("endpoints", st, i, tb == ("arg0", 24) or (tb is None and st.eq(atom("k0"))), "not the list of endpoints is handed out")
        ob("endpoints", st, i, st.eq(sub(atom("m"), atom("k0"))), "endpoints are left out")
    m = Mem(f, init=init, on_call=on_call, on_load=on_load, on_store=on_store, on_instr=on_instr, on_ret=on_ret, keep=lambda st, i, b: True)
    m.run(); R.saw("functions analysed")
    R.assume("there are fewer hosts than an int can count")
    if not cm.get("lower_bound") and cm.get("upper_bound"): return
    if not cm.get("lower_bound"): raise Broken("SeparateEndpoints does not look hosts up with std::lower_bound")
    kinds = {}
    for a, d in cm.items():
        for c, i in d.items():
            fs = [g for q_, g in reached(u, c, lambda x: not x.startswith(("std::", "__gnu", "_Z", "__")))]
            if not fs:
                fs = [prog_fn(o[1:]) for o in i.ops if isinstance(o, str) and o.startswith("@")]
            for g in {g.name: g for g in fs if g is not None}.values():
                if g.q == L + "StrCaseCmp": continue
                k = order(R, g)
                kinds.setdefault(a, set()).add(k)
                R.ob("case", "%s in %s" % (a, q), k in (("less", "eq")[a == "unique":][:1] if a == "unique" else ("less", "greater")), f.loc(i), "the hosts' order or equality used here is not a case-insensitive one")
    s = kinds.get("sort", set()) | kinds.get("stable_sort", set())
    R.ob("case", "sort and search", s == kinds.get("lower_bound"), f.loc(list(cm["lower_bound"].values())[0]), "hosts are looked up in another order than they are sorted in")
    for a in ("sort", "unique", "lower_bound"):
        if a not in kinds and not (a == "sort" and s): R.ob("case", a, False, f.loc(None), "the hosts are not put through %s with an order of their own" % a)

def order(R, g):
    u = ir.view("host_cmp", [re.escape(g.q)])
    fs = [f for f in u.roots if stem(f.name) == stem(g.name)]
    if not fs: raise Broken("comparator %s cannot be analysed" % g.q)
    f = fs[0]; n = len(f.args); a, b = atom(arg(n - 2)), atom(arg(n - 1)); out = set()
    def on_call(st, i, c):
        if c == "strcasecmp":
            x, y = st.lin(i.ops[0]), st.lin(i.ops[1])
            d = 1 if st.eq(sub(x, a)) and st.eq(sub(y, b)) else -1 if st.eq(sub(x, b)) and st.eq(sub(y, a)) else 0
            if d: st.assign("c", scale(st.ai.v.lin(i.id), d)); st.set("c", 1)
        return True
    def on_ret(st, i, r):
        if not st.checking: return
        if st.get("c") != 1: out.add("other"); return
        s1, s0 = truth(st, ret_op(i), True), truth(st, ret_op(i), False)
        h = {"less"} if (not s1.poly.feasible() or s1.ge(add(scale(atom("c"), -1), const(-1)))) and (not s0.poly.feasible() or s0.ge(atom("c"))) else set()
        if (not s1.poly.feasible() or s1.ge(add(atom("c"), const(-1)))) and (not s0.poly.feasible() or s0.ge(scale(atom("c"), -1))): h.add("greater")
        if (not s1.poly.feasible() or s1.eq(atom("c"))) and (not s0.poly.feasible() or s0.ne(atom("c"))): h.add("eq")
        out.add(h.pop() if len(h) == 1 else "other")
    Mem(f, on_call=on_call, on_ret=on_ret, partition=True).run(); R.saw("functions analysed")
    return out.pop() if len(out) == 1 else "other"

"""FunctionRef calls what it was made from with what it was given, and neither it nor what it refers to is kept."""
from lib import *
from contract import *
from absint import AbsInt
import ir
from build import VERIF
RULES = {
    "calls": ("a call through a reference is one call of the callable it was made from, with the same arguments, and gives back its result", 7),
    "tests": ("a reference tells whether it refers to something", 3),
    "copies": ("a copy of a reference refers to the same callable, not to the reference it was copied from", 3),
    "not-stored": ("no object, global or container keeps a reference", 1),
    "not-kept": ("a function given a reference leaves neither it nor its callable in memory that outlives the call, and hands it to nothing but functions taking references", 6),
    "not-returned": ("no function gives a reference back", 1),
    "in-scope": ("no local object is used after its scope has ended", 100),
}
N = "lightstep::"; W = "witness::"

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    u = ir.view("funcplain", [W + ".*"], [], shadow=[VERIF + "/shadow/function_ref_plain.cpp"])
    R.saw("uses of references analysed")
    f = [g for g in u.roots if g.q == W + "BindPlain"]
    if not f: raise Broken("witness BindPlain not found")
    calls(R, u, f[0], W + "Plain::operator()", ["arg0", "arg1", "arg2"])
    try: u = ir.view("funcref", [W + ".*", N + "FunctionRef.*"], [], shadow=[VERIF + "/shadow/function_ref_uses.cpp"])
    except Broken as e:
        m = re.search(r"(src/common/function_ref\.h:\d+):\d+: error: ([^\n]*)", str(e))
        if m is None: raise
        R.ob("calls", "arguments that can only be moved or referred to", False, m.group(1), "a call does not build any more: " + m.group(2)); u = None
    if u is not None: uses(R, u)
    P = ir.program()
    P.need("recorder/stream_recorder/span_stream.cpp", "recorder/stream_recorder/connection_stream.cpp", "common/chained_stream.cpp")
    stored(R, P); kept(R, P); scopes(R, P)

def uses(R, u):
    by = {f.q: f for f in u.roots if f.q.startswith(W)}
    def get(n):
        if W + n not in by: raise Broken("witness %s not found" % n)
        R.saw("uses of references analysed")
        return by[W + n]
    for n, target, ops in (("BindCallable", W + "Callable::operator()", 4), ("BindTemporary", W + "Callable::operator()", 4), ("BindVoid", W + "VoidCallable::operator()", 3),
                           ("BindNoArgs", W + "NoArgsCallable::operator()", 1), ("BindCopy", W + "Callable::operator()", 4), ("BindFunction", W + "Function", 3)):
        f = get(n); calls(R, u, f, target, ["arg%d" % k for k in range(ops)])
    calls(R, u, get("BindPointer"), "arg0", ["arg1", "arg2", "arg3"])
    for n in ("TestCallable", "TestPointer", "TestNothing"): tests(R, get(n), n)
    for n in ("CopyConst", "CopyPlain", "CopyMoved"): copies(R, u, get(n))

# -- calling ---------------------------------------------------------------------------
def callee_name(u, i):
    c = callee_of(i)
    return c

def calls(R, u, f, target, ops, bind=None, depth=0):
    """every path through f is one call of the target with these operands (given as f's arguments or constants)"""
    v = Values(f); label = f.q if depth == 0 else bind[1]; env = bind[0] if bind else {}
    inst = label
    def val(o):
        e = v.op(o)
        if depth and len(e) == 1:
            a = next(iter(e))
            if isinstance(a, str) and a.startswith("arg") and e[a] == 1: return env.get(int(a[3:]))
        return e
    def same(st, e, want):
        if e is None: return False
        if isinstance(want, str): want = atom(want)
        return st.eq(sub(e, want)) if depth == 0 else key(e) == key(want)
    def hook(st, i):
        if i.op in ("call", "invoke"):
            c = callee_of(i)
            if c and (c.startswith("llvm.") or c == "__clang_call_terminate"): return
            n = st.get("n", 0) or 0
            st.set("n", min(n + 1, 2)); st.set("call", i.id)
            if not st.checking: return
            g = u.fns.get(c) if c else None
            if c is None:
                ok = same(st, val(i.d["callee"]), target) if isinstance(i.d.get("callee"), str) else False
                R.ob("calls", inst, ok, f.loc(i), "something else than the callable is called")
            elif g is not None and not g.is_decl and g.q != target and depth < 3:
                calls(R, u, g, target, ops, ({k: val(o) for k, o in enumerate(i.ops)}, label), depth + 1); return
            else:
                ok = (g.q if g is not None else c) == target
                R.ob("calls", inst, ok, f.loc(i), "%s is called instead of the callable" % (g.q if g is not None else c))
            if ok:
                if len(i.ops) != len(ops): R.ob("calls", inst, False, f.loc(i), "the callable is called with %d operands instead of %d" % (len(i.ops), len(ops)))
                else:
                    for k, (o, w) in enumerate(zip(i.ops, ops)):
                        R.ob("calls", inst, same(st, val(o), w), f.loc(i), "operand %d of the call is not the one given (a copy of the callable or of an argument, or another argument)" % k)
        if i.op == "ret" and st.checking:
            R.ob("calls", inst, st.get("n") == 1, f.loc(i), "the callable is called %s on some path" % ("more than once" if st.get("n") == 2 else "not at all"))
            if i.ops and st.get("call"): R.ob("calls", inst, st.eq(sub(v.op(i.ops[0]), v.lin(st.get("call")))), f.loc(i), "what the callable returned is not given back")
    AbsInt(f, hook=hook).run()

def evaluate(f, null):
    """the set of answers of a small function of one pointer that is null or is not, by walking its paths ("null", "ptr", numbers; None: not known)"""
    out = set(); work = [(0, None, {})]; steps = 0
    while work:
        b, prev, env = work.pop(); env = dict(env); steps += 1
        if steps > 200: return {None}
        def val(o):
            if isinstance(o, dict) or o is None: return None
            if o == "%0": return "null" if null else "ptr"
            if o == "null": return "null"
            if isinstance(o, str) and o.startswith("@"): return "ptr"
            if isinstance(o, str) and o.startswith("%"): return env.get(int(o[1:]))
            if o in ("true", "false"): return int(o == "true")
            return int(o) if re.match(r"-?[0-9]+$", str(o)) else None
        news = {}
        for i in f.blocks[b]:
            if i.op != "phi": break
            x = [o for p, o in i.d["inc"] if p == prev]
            news[i.id] = val(x[0]) if x else None
        env.update(news)
        for i in f.blocks[b]:
            if i.op == "phi": continue
            if i.op == "icmp":
                x, y = val(i.ops[0]), val(i.ops[1])
                env[i.id] = None if x is None or y is None or (x == y == "ptr") or i.d["pred"] not in ("eq", "ne") else int((x == y) == (i.d["pred"] == "eq"))
            elif i.op == "select":
                c = val(i.ops[0]); env[i.id] = val(i.ops[1 if c else 2]) if c is not None else None
            elif i.op in ("zext", "bitcast", "freeze", "ptrtoint", "inttoptr"): env[i.id] = val(i.ops[0])
            elif i.op == "xor":
                x, y = val(i.ops[0]), val(i.ops[1]); env[i.id] = x ^ y if isinstance(x, int) and isinstance(y, int) else None
            elif i.op in ("and", "or"):
                x, y = val(i.ops[0]), val(i.ops[1]); env[i.id] = (x & y if i.op == "and" else x | y) if isinstance(x, int) and isinstance(y, int) else None
            elif i.op == "ret": x = val(i.ops[0]); out.add(x & 1 if isinstance(x, int) else x)
            elif i.op == "br":
                ss = f.succ[b]
                if i.ops and len(ss) == 2:
                    c = val(i.ops[0])
                    if c is not None: ss = [ss[0] if c else ss[1]]
                work += [(s_, b, env) for s_ in ss]
            elif i.op == "unreachable": pass
    return out

def tests(R, f, n):
    loc = next((f.loc(i) for i in f.all_instrs() if i.op == "ret"), "")
    if n == "TestCallable": R.ob("tests", f.q, evaluate(f, False) == {1}, loc, "a reference to a callable is taken for one to nothing")
    elif n == "TestNothing": R.ob("tests", f.q, evaluate(f, True) == {0}, loc, "a reference to nothing is taken for one to something")
    else: R.ob("tests", f.q, evaluate(f, False) == {1} and evaluate(f, True) == {0}, loc, "a reference made from a function pointer is taken for one to nothing, or the other way round")

def copies(R, u, f):
    size = [g for n, g in u.globals.items() if (g.get("demangled") or "") == W + "Size"]
    n = size[0].get("init") if size else 16
    n = int(n) if isinstance(n, (int, str)) and str(n).isdigit() else 16
    seen = []
    def init(st):
        for o in range(0, n, 8): st.poly.add_eq(sub(atom(mvar("arg0", o)), atom("was%d" % o)))
    def on_ret(st, i, r):
        seen.append(1)
        for o in range(0, n, 8):
            R.ob("copies", f.q, st.eq(sub(atom(mvar("arg1", o)), atom("was%d" % o))), f.loc(i), "the copy does not refer to what the original refers to")
            R.ob("copies", f.q, st.eq(sub(atom(mvar("arg0", o)), atom("was%d" % o))), f.loc(i), "copying changes the original")
    Mem(f, init=init, on_ret=on_ret).run()

# -- keeping -----------------------------------------------------------------------------
def stored(R, P):
    n = 0
    for r in P.records:
        if r["q"].startswith(N + "FunctionRef"): continue
        for e in r["els"]:
            if e["k"] == "method":
                continue
            n += 1
            if "FunctionRef<" not in str(e.get("t")): continue
            if "(lambda" in r["q"]: continue          # a closure: see not-kept
            R.ob("not-stored", "%s::%s" % (r["q"], e["n"]), False, "%s:%s" % (ir.relpath(r.get("file", "")), e.get("line", "")), "an object keeps a non-owning reference to a callable")
    for g in P.globals.values():
        if "FunctionRef" in str(g.get("ty", "")) and "FunctionRef" not in (g.get("demangled") or "").split("(")[0].split("<")[0] and not g.get("const"):
            R.ob("not-stored", g.get("demangled") or g["name"], False, "", "a global keeps a non-owning reference to a callable")
    bad = {}
    for f in P.fns.values():
        m = re.match(r"(std::(function|thread|vector|deque|list|map|unordered_map|pair|tuple|unique_ptr|shared_ptr|_Bind\w*|bind|async|future|packaged_task)\b[^(]*)", f.demangled or "")
        if m and re.search(r"\bFunctionRef<", m.group(1)): bad[m.group(1)[:100]] = f
    for k in sorted(bad): R.ob("not-stored", k, False, "", "a container or callback that may outlive the call keeps a non-owning reference")
    R.saw("data members analysed", n)
    if not bad: R.ob("not-stored", "members, globals and containers", True)
    for f in P.repo_fns():
        if f.q.startswith(N + "FunctionRef"): continue
        pt = [str(x) for x in (f.pt or [])]
        if pt: R.ob("not-returned", f.q, "FunctionRef<" not in pt[0] or pt[0].startswith("std::"), "%s" % (f.file or ""), "a non-owning reference is returned")
    R.saw("functions analysed", len(P.repo_fns()))

def takes(f): return any("FunctionRef<" in str(x).split("::")[-1] or re.match(r"^[&*]*(const )?lightstep::FunctionRef<", str(x)) for x in (f.pt or [])[1:])

def ref_args(f):
    """(arguments that are parts of a reference, arguments that point to one)"""
    parts, ptrs = set(), set()
    pt = [str(x) for x in (f.pt or [])][1:]; k = this_arg(f)
    # by value: two registers named x.coerce0 and x.coerce1
    for n, a in enumerate(f.args):
        if a[0].endswith((".coerce0", ".coerce1")): parts.add(n)
    if len(f.args) - k == len(pt):
        for n, t in enumerate(pt):
            if re.match(r"^[&*]+(const )?lightstep::FunctionRef<", t): ptrs.add(n + k)
    elif any(re.match(r"^[&*]+(const )?lightstep::FunctionRef<", t) for t in pt):
        ptrs |= {n for n, a in enumerate(f.args) if a[1] == "ptr" and n not in parts and n >= k + 1}
    if not any(re.match(r"^(const )?lightstep::FunctionRef<", t) for t in pt): parts = set()
    return parts, ptrs

def kept(R, P):
    fs = [f for f in P.repo_fns() if takes(f) and not f.q.startswith(N + "FunctionRef")]
    names = sorted({f.q for f in fs})
    if len(names) < 6: raise Broken("functions taking references not found")
    rx = [re.sub(r"[^A-Za-z0-9_:]", ".", q) for q in names]
    u = ir.view("refkept", rx, rx)
    for f in u.roots:
        parts, ptrs = ref_args(P.fns.get(f.name) or f)
        R.saw("functions taking references analysed")
        taint = set(); hold = set()      # values derived from the reference; local objects holding such
        def t(o):
            if isinstance(o, dict): return t(o.get("base")) if "base" in o else False
            if not (isinstance(o, str) and o.startswith("%")): return False
            n = int(o[1:])
            return n in parts or n in ptrs or n in taint
        def local(o):
            """the local object an address lies in"""
            seen = set()
            while isinstance(o, str) and o.startswith("%"):
                i = f.val(o)
                if i is None or i.id in seen: return None
                seen.add(i.id)
                if i.op == "alloca": return i.id
                if i.op == "getelementptr": o = i.d["base"]
                elif i.op == "bitcast": o = i.ops[0]
                else: return None
            return None
        ch = True
        while ch:
            ch = False
            for i in f.all_instrs():
                if i.op in ("getelementptr",): d = t(i.d["base"])
                elif i.op in ("bitcast", "select", "insertvalue", "extractvalue", "freeze", "ptrtoint", "inttoptr"): d = any(t(o) for o in i.ops)
                elif i.op == "phi": d = any(t(o) for _, o in i.d["inc"])
                elif i.op == "load":
                    p = f.val(i.ops[0]); n = f.is_arg(i.ops[0])
                    d = (i.ty == "ptr") and (local(i.ops[0]) in hold or n in ptrs or (p is not None and p.op == "getelementptr" and f.is_arg(p.d["base"]) in ptrs))
                else: d = False
                if d and i.id not in taint: taint.add(i.id); ch = True
                if i.op == "store" and t(i.ops[0]):
                    l = local(i.ops[1])
                    if l is not None and l not in hold: hold.add(l); ch = True
                if i.op == "call" and (callee_of(i) or "").startswith(("llvm.memcpy", "llvm.memmove")) and (local(i.ops[1]) in hold or f.is_arg(i.ops[1]) in ptrs):
                    l = local(i.ops[0])
                    if l is not None and l not in hold: hold.add(l); ch = True
        bad = False
        for i in f.all_instrs():
            if i.op == "store" and (t(i.ops[0]) or local(i.ops[0]) in hold) and local(i.ops[1]) is None:
                R.ob("not-kept", f.q, False, f.loc(i), "the reference or its callable is stored where it outlives the call"); bad = True
            if i.op in ("call", "invoke"):
                c = callee_of(i)
                if c and c.startswith(("llvm.memcpy", "llvm.memmove")) and (local(i.ops[1]) in hold or f.is_arg(i.ops[1]) in ptrs) and local(i.ops[0]) is None:
                    R.ob("not-kept", f.q, False, f.loc(i), "the reference is copied to where it outlives the call"); bad = True
                if c is None or c.startswith("llvm.") or c == "__clang_call_terminate": continue
                gs = vtargets(c)
                for k, o in enumerate(i.ops):
                    if not (t(o) or local(o) in hold): continue
                    ok = all(g is not None and (takes(g) or g.q.startswith(N + "FunctionRef")) for g in gs)
                    # a closure handed down by reference, on the stack
                    if not ok and local(o) in hold and all(g is not None and g.q.startswith(N) for g in gs): ok = True
                    if not ok: R.ob("not-kept", f.q, False, f.loc(i), "the reference is handed to %s, which may keep it" % cname(u, i)); bad = True
        if not bad: R.ob("not-kept", f.q, True)

def vtargets(c):
    if not c.startswith("vcall$"): return [prog_fn(c)]
    P = ir.program(); _, tid, off = c.split("$")
    gs = [P.fns[n] for n in P.vtables().get(tid, {}).get(int(off), set()) if n in P.fns and "__cxa_pure" not in n]
    return [through_thunk(g) for g in gs] or [None]

def through_thunk(g):
    """the member function a this-adjusting thunk leads to"""
    if not g.name.startswith("_ZTh"): return g
    cs = [callee_of(i) for i in g.all_instrs() if i.op in ("call", "invoke") and not (callee_of(i) or "llvm.").startswith("llvm.")]
    return ir.program().fns.get(cs[0], g) if len(cs) == 1 else g

# -- scopes ------------------------------------------------------------------------------------
def scopes(R, P):
    for f in P.repo_fns():
        ends = [i for i in f.all_instrs() if i.op == "call" and (callee_of(i) or "").startswith("llvm.lifetime.end")]
        if not ends: continue
        R.saw("functions with scoped objects analysed")
        def obj(o, d=0):
            while isinstance(o, str) and o.startswith("%") and d < 20:
                i = f.val(o); d += 1
                if i is None: return None
                if i.op == "alloca": return i.id
                if i.op == "getelementptr": o = i.d["base"]
                elif i.op in ("bitcast", "addrspacecast"): o = i.ops[0]
                else: return None
            return None
        IN = {0: frozenset()}; work = [0]; bad = None
        def step(h, i, report):
            c = callee_of(i) if i.op in ("call", "invoke") else None
            if c and c.startswith("llvm.lifetime."):
                a = obj(i.ops[-1])
                if a is None: return h
                return h - {a} if "start" in c else h | {a}
            if report and h:
                for o in i.ops:
                    a = obj(o)
                    if a is not None and a in h and i.op in ("call", "invoke", "load", "store"): return (h, i, a)
            return h
        while work:
            b = work.pop(); h = IN[b]
            for i in f.blocks[b]: h = step(h, i, False)
            for s in f.succ[b]:
                n = h | IN.get(s, frozenset())
                if s not in IN or n != IN[s]: IN[s] = n; work.append(s)
        for b in IN:
            h = IN[b]
            for i in f.blocks[b]:
                r = step(h, i, True)
                if isinstance(r, tuple): bad = bad or r[1:]; r = r[0]
                h = r
        R.ob("in-scope", f.q, bad is None, f.loc(bad[0]) if bad else "", "a local object is used after its scope has ended")

"""Helpers shared by the rules."""
import re
from poly import F, ONE, const, atom, add, sub, scale, is_const, cval, key, Poly
from absint import AbsInt, State, Values, rename
import ir
from ir import callee_of, Broken, strip_templates

RANK = {"monotonic": 0, "unordered": 0, "consume": 1, "acquire": 2, "release": 2, "acq_rel": 3, "seq_cst": 4, "": -1, None: -1}
def has_acquire(o): return o in ("acquire", "acq_rel", "seq_cst")
def has_release(o): return o in ("release", "acq_rel", "seq_cst")

def one(u, q, pred=lambda f: True, what=None):
    """the function with this qualified name (anchor); its absence means the analysis cannot be carried out"""
    c = [f for f in u.byq.get(q, []) if not f.is_decl and pred(f)]
    if not c: raise Broken("function %s not found" % (what or q))
    return c[0]

def some(u, q, pred=lambda f: True):
    c = [f for f in u.byq.get(q, []) if not f.is_decl and pred(f)]
    if not c: raise Broken("function %s not found" % q)
    return c

def inst(f):
    """template arguments of the class a method belongs to, for labels"""
    m = re.search(r"<(.*)>", f.scope or "")
    return m.group(1) if m else ""

def stem(n): return re.sub(r"\$\d+$", "", n or "")

def prog_fn(name, u=None):
    """a function of the program by its symbol; symbols local to a unit carry a number that differs between views"""
    P = ir.program()
    f = (u.fns.get(name) if u is not None else None)
    if f is not None and not f.is_decl: return f
    g = P.fns.get(name)
    if g is None and re.search(r"\$\d+$", name or ""):
        if not hasattr(P, "_stems"):
            P._stems = {}
            for n, x in P.fns.items():
                if re.search(r"\$\d+$", n): P._stems.setdefault(stem(n), []).append(x)
        c = P._stems.get(stem(name), [])
        if len({x.file for x in c}) == 1: g = c[0]
    return g if g is not None else f

def cname(u, i):
    """readable qualified name of a call's target ('' if indirect)"""
    c = callee_of(i)
    if c is None: return ""
    if c.startswith("vcall$"): return vcall_name(c)
    f = u.fns.get(c) or ir.program().fns.get(c)
    if f is None or f.q.startswith("_Z"): f = prog_fn(c) or f
    if f is not None: return f.q
    return c

def vcall_name(c):
    """vcall$<typeid>$<off> -> Class::method, resolved through the program's vtables"""
    _, tid, off = c.split("$")
    p = ir.program()
    impls = p.vtables().get(tid, {}).get(int(off), set())
    names = set()
    for n in impls:
        f = p.fns.get(n)
        if f is None: continue
        nm = f.dname
        if nm is None:
            nm = f.demangled
            nm = re.sub(r"^(non-)?virtual thunk to ", "", nm)
            nm = ir.demangled_qname(nm).split("::")[-1]
        if nm.startswith("~"): nm = "~"
        names.add(nm)
    names.discard("__cxa_pure_virtual")
    cls = demangle_ts(tid)
    return cls + "::" + ("|".join(sorted(names)) or "slot%s" % off)

def demangle_ts(tid):
    m = re.match(r"_ZTSN?(.*?)E?$", tid)
    s = m.group(1) if m else tid
    out, i = [], 0
    while i < len(s) and s[i].isdigit():
        j = i
        while s[j].isdigit(): j += 1
        n = int(s[i:j]); out.append(s[j:j + n]); i = j + n
    return "::".join(out) or tid

def ptr_arg_off(e, n=0):
    """offset k if e is arg_n + k"""
    a = "arg%d" % n
    if e.get(a) == 1 and all(x in (a, ONE) for x in e): return int(cval(e))
    return None

def mutated_offsets(fns, argn=0):
    """byte offsets of *arg_n that any of these functions writes or lets escape"""
    out = set(); wild = False
    for f in fns:
        n = argn
        if len(f.args) and f.args[0][2] == 2: n = argn + 1     # sret
        v = Values(f)
        for i in f.all_instrs():
            if i.op == "store":
                k = ptr_arg_off(v.op(i.ops[1]), n)
                if k is not None: out.add(k)
                k = ptr_arg_off(v.op(i.ops[0]), n)
                if k is not None and i.ty != "ptr": pass
            elif i.op in ("atomicrmw", "cmpxchg"):
                k = ptr_arg_off(v.op(i.ops[0]), n)
                if k is not None: out.add(k)
            elif i.op in ("call", "invoke"):
                c = callee_of(i) or ""
                if c.startswith("llvm.") and "mem" not in c: continue
                for o in i.ops:
                    if isinstance(o, (str, dict)):
                        k = ptr_arg_off(v.op(o), n)
                        if k is not None:
                            if c.startswith("_ZNK"): continue
                            out.add(k)
    return out

def is_special(f):
    """constructor, destructor or assignment"""
    n = strip_templates(f.dname or "")
    cls = (strip_templates(f.scope or "")).split("::")[-1]
    return n == cls or n.startswith("~") or n == "operator="

def this_arg(f):
    return 1 if f.args and f.args[0][2] == 2 else 0

DEALLOC = re.compile(r"^_Zd[la](Pv|PvmSt11align_val_t|Pvm|PvSt11align_val_t)$|^free$")

def field_at(rec, off):
    for e in rec["els"]:
        if e["k"] == "DW_TAG_member" and not e.get("static") and e["off"] == off: return e["n"]
    return "+%d" % off

def facts(st):
    return st.poly.show(lambda a: a if isinstance(a, str) else "%" + str(a))[:300]

def final_ret(fn):
    return [i for i in fn.all_instrs() if i.op == "ret"]

def ret_op(i):
    return i.ops[0] if i.ops else None

def members(q):
    rec = ir.program().record(q)
    if rec is None: raise Broken("class %s not found" % q)
    return [e for e in rec["els"] if e["k"] == "DW_TAG_member" and not e.get("static")]

def member(q, pred, what=None):
    """offset of the one data member (by name, or by a predicate over its name and type)"""
    p = (lambda n, t: n == pred) if isinstance(pred, str) else pred
    h = [e for e in members(q) if p(e["n"], e["t"])]
    if len(h) != 1: raise Broken("%s: no unique member %s" % (q, what or pred))
    return h[0]["off"]

def access(f):
    """'public', 'protected' or 'private'"""
    rec = ir.program().record(strip_templates(f.scope or "")) if f.scope else None
    if rec is None: return "public"
    for e in rec["els"]:
        if e["k"] == "method" and (e["ln"] == f.name if e.get("ln") else (e["n"] == f.dname and list(e.get("pt") or []) == list(f.pt or []))): return e["acc"]
    return "public"

def param(f, k):
    """declared type of the function's k-th IR argument"""
    pt = [str(x) for x in (f.pt or [])]; n = k - this_arg(f) + 1
    return pt[n] if 0 <= n < len(pt) else ""


_TASK = None
def _task(n):
    fn, xs = _TASK
    try: return ("ok", fn(xs[n]))
    except Broken as e: return ("broken", str(e))

def spread(fn, xs, procs=8):
    """[fn(x) for x in xs] on several processors"""
    global _TASK
    import multiprocessing
    xs = list(xs); _TASK = (fn, xs)
    if len(xs) <= 1: out = [_task(n) for n in range(len(xs))]
    else:
        with multiprocessing.get_context("fork").Pool(min(procs, len(xs))) as p: out = p.map(_task, range(len(xs)), chunksize=1)
    for k, r in out:
        if k == "broken": raise Broken(r)
    return [r for _, r in out]

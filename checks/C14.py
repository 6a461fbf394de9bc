"""Where exceptions may arise and how far they get: they must not reach a function that promises not to throw, a thread's entry or a C library."""
from lib import *
from checks.effects import *
from checks.C15 import addr_taken
import ir
RULES = {
    "no-throw": ("no exception reaches the end of a function that promises not to throw (destructors included): it would end the process", 60),
    "thread": ("no exception leaves a function run as a thread", 2),
    "callback": ("no exception leaves a function called by a C library", 15),
    "load": ("initialising a global variable lets no exception out but exhausted memory: there is nobody to catch it when the library is loaded", 1),
    "no-abort": ("nothing ends the process on purpose, unless the caller broke a documented rule", 1),
}
N = "lightstep::"
ALLOC = re.compile(r"^_Zn[wa]m")
QUIET = {"__cxa_begin_catch", "__cxa_end_catch", "__cxa_free_exception", "__cxa_allocate_exception", "__gxx_personality_v0", "_ZSt9terminatev", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
         "__clang_call_terminate", "__cxa_call_unexpected", "__cxa_pure_virtual", "__cxa_bad_cast", "__cxa_bad_typeid", "__dynamic_cast", "__cxa_atexit", "__cxa_thread_atexit"}
# what the standard library says when there is no room, or when a caller breaks its rules
ROOM = {"bad_alloc", "length_error", "bad_array_new_length", "logic_error", "out_of_range_fmt", "out_of_range", "invalid_argument"}
GENERATED_QUIET = re.compile(r"^lightstep::collector::(\w+|[\w:]+)::(Clear|clear_\w+|InternalSwap|Swap|~\w+|ByteSizeLong|SerializeWithCachedSizes\w*|GetCachedSize|default_instance|has_\w+|\w+_size|MergePartialFromCodedStream|New|GetTypeName|IsInitialized|SharedDtor)$")
USER_SIGS = re.compile(r"LogLevel|opentracing|FmvE|FbRK.*basic_string|FbRKNSt7__cxx1112basic_string|FmvE$")
ENDS = re.compile(r"^(abort|exit|_exit|_Exit|quick_exit|std::(terminate|abort|exit|_Exit|quick_exit)|_ZSt9terminatev|raise|kill)$")
# they end the process when their caller breaks the contract they state
CHECKS_ITS_CALLER = {"lightstep::BufferChain::CopyOut", "OpenTracingMakeTracerFactoryFunction"}
ASSUME = ["locking a mutex that is not misused and joining a joinable thread do not fail", "exceptions thrown by the user's code derive from std::exception",
          "plain function pointers given by the user (BufferChain's fragment callback) and the C libraries do not throw", "destructors of the standard library, of protobuf messages and clearing and swapping those do not throw"]

PARENT = {"invalid_argument": "logic_error", "domain_error": "logic_error", "length_error": "logic_error", "out_of_range": "logic_error", "future_error": "logic_error",
          "range_error": "runtime_error", "overflow_error": "runtime_error", "underflow_error": "runtime_error", "system_error": "runtime_error", "bad_array_new_length": "bad_alloc"}
THROWN = {}                  # which types the exceptions named so have
def std_type(t):
    m = re.search(r"_ZTISt(?:7__cxx11)?\d+([a-z_]+)", t)
    return m.group(1) if m else None
def takes(cl, k):
    """whether a handler for that type takes every exception of that kind"""
    c = std_type(str(cl)); ts = {k[5:]} if k.startswith("std::") else THROWN.get(k)
    if c is None or not ts: return False
    def is_a(t):
        while t:
            if t == c: return True
            t = PARENT.get(t)
        return False
    return all(t and is_a(t) for t in ts)

class Throws:
    def __init__(self, P):
        self.P = P; self.esc = {}; self.calls = {}
        self.refs = {}; self.funcs = {}
        for n, f in P.fns.items():
            if f.is_decl: self.esc[n] = self.declared(f); continue
            self.esc[n] = frozenset(); self.calls[n] = list(calls_of(f))
            m = re.match(r"^_ZZN9lightstep11FunctionRefI(.*?)E6BindTo.*8__invoke", n)
            if m and "5verif" not in n and "7witness" not in n: self.refs.setdefault(m.group(1), set()).add(n)
            m = re.match(r"^_ZNSt17_Function_handlerI(F.*?E)", n)
            if m and "9_M_invoke" in n: self.funcs.setdefault(n, None)
        callers = {}
        for n in self.calls:
            for x in self.deps(n): callers.setdefault(x, set()).add(n)
        work = list(self.calls); inq = set(work)
        while work:
            n = work.pop(); inq.discard(n)
            new = self.compute(n)
            if new != self.esc[n]:
                self.esc[n] = new
                for c in callers.get(n, ()):
                    if c not in inq: inq.add(c); work.append(c)

    def deps(self, n):
        out = set()
        for i, c in self.calls[n]:
            if c is None: continue
            if c.startswith("vcall$"): out |= {through(self.P, g).name for g in targets(c)}
            else: out.add(c)
        out |= set(self.special(n) or ())
        return out

    def declared(self, f):
        n = f.name; q = strip_templates(f.q or n)
        if ALLOC.match(n): return frozenset({"alloc"})
        if n in QUIET or n.startswith("llvm.") or not n.startswith("_Z"): return frozenset()
        m = re.match(r"^std::__throw_(\w+)", q)
        if m: return frozenset({"alloc"} if m.group(1) in ROOM else () if m.group(1) == "system_error" else {"std::" + m.group(1)})
        if q.startswith("std::"):
            if re.search(r"::~|std::thread::join|std::condition_variable::|std::(error_code|error_category|error_condition)", q): return frozenset()
            if q.startswith("std::random_device") or "_M_start_thread" in q: return frozenset({"std::runtime_error"})
            return frozenset({"alloc"})
        if q.startswith("google::protobuf"):
            if re.search(r"::io::|::~|::internal::(Repeated|Arena)?\w*(Lite)?Destroy", q): return frozenset()
            return frozenset({"alloc"})
        if GENERATED_QUIET.match(q) or "verif::" in q or "witness::" in q: return frozenset()
        if q.startswith("lightstep::collector::") or q.startswith(("opentracing::", "BinaryCarrier", "lightstep::BinaryCarrier", "lightstep::BasicTracerCarrier")): return frozenset({"alloc"})
        return frozenset({"unknown " + q})

    def special(self, n):
        """what calling through a FunctionRef or a std::function runs"""
        m = re.match(r"^_ZNK9lightstep11FunctionRefI(.*?)Ecl", n)
        if m: return self.refs.get(m.group(1)) if m.group(1) in self.refs else set().union(*self.refs.values()) if self.refs else set()
        m = re.match(r"^_ZNKSt8functionI(F.*?E)Ecl", n)
        if m:
            t = "_ZNSt17_Function_handlerI" + m.group(1)
            return {x for x in self.funcs if x.startswith(t)}
        return None

    def compute(self, n):
        f = self.P.fns[n]; out = set()
        s = self.special(n)
        if s is not None:
            for x in s: out |= self.esc.get(x, frozenset())
            m = re.match(r"^_ZNKSt8functionI(F.*?E)Ecl", n)
            if m and USER_SIGS.search(m.group(1)): out.add("the user's callback")
            return frozenset(out)
        for i, c in self.calls[n]:
            k = self.kinds(f, i, c)
            if k: out |= self.after(f, i, k)
        return frozenset(out)

    def kinds(self, f, i, c):
        if i.d.get("nounwind") or c is None: return frozenset()
        if c == "__cxa_throw":
            t = str(i.ops[1])
            m = re.search(r"_ZTI(?:N?)(.*)", t)
            if "bad_alloc" in t: return frozenset({"alloc"})
            THROWN.setdefault("an exception thrown in " + f.q, set()).add(std_type(t))
            return frozenset({"an exception thrown in " + f.q})
        if c == "__cxa_rethrow": return frozenset()           # judged where it was caught: what is caught there passes on below
        if c.startswith("vcall$"):
            n = vcall_name(c); k = set()
            if USER.match(n): k.add("the user's " + n)
            for g in targets(c): k |= self.esc.get(through(self.P, g).name, frozenset())
            return frozenset(k)
        return self.esc.get(c, frozenset())

    def after(self, f, i, ks):
        """what is left of the exceptions after the handlers around the call"""
        if i.op == "call": return ks
        lp = next((x for x in f.blocks[i.d["unwind"]] if x.op == "landingpad"), None)
        if lp is None: return ks
        out = set(ks); re_ = self.rethrows(f, i.d["unwind"])
        for cl in lp.d["clauses"]:
            if cl[0] != "catch": continue
            t = str(cl[1])
            if cl[1] == "null" or t.endswith("_ZTISt9exception"): return frozenset() if not re_ else ks
            if "bad_alloc" in t and not re_: out -= {"alloc"}
            if not re_: out -= {k for k in out if takes(t, k)}
        return frozenset(out)

    def rethrows(self, f, b):
        seen = set(); work = [b]
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x)
            for i in f.blocks[x]:
                if i.op in ("call", "invoke") and callee_of(i) == "__cxa_rethrow": return True
                if i.op in ("call", "invoke") and callee_of(i) == "__cxa_end_catch": break
            else: work += f.succ[x]
        return False

def terminates(f, b):
    """what no handler there takes leads straight to std::terminate"""
    if not any(x.op == "landingpad" and ["catch", "null"] in [list(c) for c in x.d["clauses"]] for x in f.blocks[b]): return False
    seen = set(); work = [b]
    while work:
        x = work.pop()
        if x in seen: continue
        seen.add(x)
        for i in f.blocks[x]:
            if i.op in ("call", "invoke"):
                c = callee_of(i) or ""
                if c in ("__clang_call_terminate", "_ZSt9terminatev"): return True
                if c == "__cxa_begin_catch": break
        else: work += f.succ[x]
    return False

def handled(f, b, k):
    """without what the handlers there take"""
    lp = next(x for x in f.blocks[b] if x.op == "landingpad"); out = set(k)
    for cl in lp.d["clauses"]:
        if cl[0] != "catch" or cl[1] == "null": continue
        if str(cl[1]).endswith("_ZTISt9exception"): return frozenset()
        if "bad_alloc" in str(cl[1]): out -= {"alloc"}
        out -= {x for x in out if takes(cl[1], x)}
    return frozenset(out)

def shown(k):
    return "exhausted memory (std::bad_alloc)" if k == {"alloc"} else " or ".join(sorted(k - {"alloc"}))

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    for a in ASSUME: R.assume(a)
    P = ir.program(); T = Throws(P)
    P.need("recorder/stream_recorder/stream_recorder_impl.cpp", "recorder/auto_recorder.cpp", "tracer/span.cpp", "tracer/legacy/legacy_span.cpp", "network/event.cpp", "network/ares_dns_resolver/ares_dns_resolver.cpp")
    taken = addr_taken(P)
    vts = {n for v in P.vtables().values() for s in v.values() for n in s}
    aborts = 0; exempt = only_below(P, T, CHECKS_ITS_CALLER)
    for f in P.repo_fns():
        if f.is_decl or not f.q.startswith(N) and not re.match(r"^\w+$", f.q): continue
        if "verif::" in f.name or "5verif" in f.name or re.match(r"^lightstep::collector::", f.q): continue
        R.saw("functions analysed")
        bad = {}; sites = 0
        for i, c in T.calls[f.name]:
            q = strip_templates(prog_fn(c).q if c and prog_fn(c) and prog_fn(c).q else c or "")
            if ENDS.match(q) or ENDS.match(c or ""):
                if not terminates_block(f, i) and f.name not in exempt: aborts += 1; R.ob("no-abort", "%s %s" % (q.replace("_ZSt9terminatev", "std::terminate"), after_what(T, f, i)), False, f.loc(i), "the process the tracer runs in is ended")
            if i.op != "invoke":
                continue
            R.saw("calls that may be left by an exception")
            if not terminates(f, i.d["unwind"]): continue
            sites += 1
            k = handled(f, i.d["unwind"], T.kinds(f, i, c))
            if k: bad.setdefault("alloc" if k == {"alloc"} else "other", []).append((i, k, cname(P, i) if callee_of(i) else vcall_name(c)))
        if sites or f.q.split("::")[-1].startswith("~"):
            for kind in sorted(bad):
                i, k, n = bad[kind][0]
                R.ob("no-throw", f.q + (": out of memory" if kind == "alloc" else ""), False, f.loc(i), "%s may be left by %s, but %s promises not to throw: std::terminate is called" % (n, shown(k), f.q))
            if not bad: R.ob("no-throw", f.q, True)
        # entries
        if f.name in taken and f.name not in vts and not f.q.startswith(N + "FunctionRef"):
            r = "thread" if thread_entry(P, f) else "callback"
            e = T.esc[f.name]
            R.ob(r, f.q, not e, "%s:%s" % (ir.relpath(f.file or ""), f.line), "it may be left by %s, and there is nobody to catch it" % shown(e))
    for n, f in P.fns.items():
        if n.startswith("_GLOBAL__sub_I") and not f.is_decl and (f.file or "").startswith(ir.REPO + "/"):
            e = T.esc[n] - {"alloc"}
            R.ob("load", ir.relpath(f.file), not e, ir.relpath(f.file), "a global variable's initialisation may be left by %s: std::terminate is called while the library is loaded" % shown(e))
    if not aborts: R.ob("no-abort", "the process is never ended on purpose", True)

def only_below(P, T, roots):
    """the functions that are only called by those named"""
    callers = {}
    for n in T.calls:
        for x in T.deps(n): callers.setdefault(x, set()).add(n)
    out = {n for n, f in P.fns.items() if f.q in roots}
    if {P.fns[n].q for n in out} != roots: raise ir.Broken("missing: %s" % sorted(roots - {P.fns[n].q for n in out}))
    while True:
        new = {n for n, f in P.fns.items() if n not in out and not f.is_decl and callers.get(n) and callers[n] <= out}
        if not new: return out
        out |= new

def after_what(T, f, at):
    """which failure is being handled there, if any"""
    pads = set()
    for lp in f.all_instrs():
        if lp.op != "landingpad": continue
        seen = set(); work = [lp.blk]
        while work:
            b = work.pop()
            if b in seen: continue
            seen.add(b)
            for x in f.blocks[b]:
                if x is at: pads.add(lp.blk)
                if x.op in ("call", "invoke") and callee_of(x) == "__cxa_end_catch": break
            else: work += f.succ[b]
    k = set()
    for i, c in T.calls[f.name]:
        if i.op == "invoke" and i.d["unwind"] in pads: k |= T.kinds(f, i, c) - {"alloc"}
    return "after " + " or ".join(sorted(k)) if k else "in " + f.q

def terminates_block(f, i):
    return any(x.op == "landingpad" for x in f.blocks[i.blk])

def thread_entry(P, f):
    for g in P.repo_fns():
        if f.name in mentioned(g):
            for i, c in calls_of(g):
                if c and strip_templates(prog_fn(c).q if prog_fn(c) else c) == "std::thread::thread": return True
    return False

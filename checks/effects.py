"""What calling a function may lead to: the call graph of the whole program with virtual calls resolved, and facts propagated up it."""
from lib import *
from checks.locks import *
import ir

USER = re.compile(r"^(lightstep::(\w*Transporter|MetricsObserver)|opentracing::(v\d+::)?\w*(Writer|Reader))::")
BLOCK = re.compile(r"^(poll|ppoll|select|pselect|epoll_wait|nanosleep|clock_nanosleep|usleep|sleep|sem_wait|sem_timedwait|pthread_join|pthread_cond_(timed|clock)?wait|getaddrinfo|gethostbyname|fsync|fdatasync|wait|waitpid|event_base_loop|event_base_dispatch|flock|system|"
                   r"std::thread::join|std::this_thread::sleep_(for|until)|std::condition_variable(_any)?::wait(_for|_until)?|std::__condvar::wait.*|std::(shared_)?future::(get|wait|wait_for|wait_until))$")

def calls_of(f):
    """names of everything a function calls directly; vcall$ for virtual calls, ? for pointers"""
    vt = None
    for i in f.all_instrs():
        if i.op not in ("call", "invoke"): continue
        c = callee_of(i)
        if c is None:
            if vt is None: vt = {j.ops[0]: j.ops[1]["md"] for j in f.all_instrs() if j.op == "call" and (callee_of(j) or "") == "llvm.type.test" and isinstance(j.ops[1], dict)}
            c = virtual(f, i, vt)
        yield i, c

def virtual(f, i, vt):
    """vcall$<static type>$<slot> of an indirect call through a table of virtual functions"""
    l = f.val(i.d.get("callee"))
    if l is None or l.op != "load": return None
    o, off = l.ops[0], 0
    g = f.val(o)
    if g is not None and g.op == "getelementptr" and isinstance(g.d.get("off"), int): o, off = g.d["base"], g.d["off"]
    return "vcall$%s$%d" % (vt[o], off) if o in vt else None

class Graph:
    def __init__(self, P):
        self.P = P; self.out = {}
        import collections
        self.rev = collections.defaultdict(set)
        names = set(P.fns)
        for n, f in P.fns.items():
            o = set()
            if not f.is_decl:
                for i, c in calls_of(f):
                    if c is None: continue
                    if c.startswith("vcall$"):
                        for g in targets(c): o.add(through(P, g).name)
                    elif c in names: o.add(c)
                # lambdas and functions handed over by address: run, as far as can be told, by whoever they are handed to
                for x in mentioned(f):
                    if x in names: o.add(x)
            self.out[n] = o
            for x in o: self.rev[x].add(n)

    def reach(self, start, stop=lambda n: False):
        seen = set(); work = list(start)
        while work:
            n = work.pop()
            if n in seen or stop(n): continue
            seen.add(n); work += self.out.get(n, ())
        return seen

    def path(self, a, goal):
        """one way from a to a function satisfying goal, as names for people"""
        prev = {a: None}; work = [a]
        while work:
            n = work.pop(0)
            if goal(n):
                r = []
                while n is not None: r.append(self.P.fns[n].q if n in self.P.fns else n); n = prev[n]
                return r[::-1]
            for x in sorted(self.out.get(n, ())):
                if x not in prev: prev[x] = n; work.append(x)
        return []

def through(P, g):
    if not g.name.startswith("_ZTh"): return g
    cs = [callee_of(i) for i in g.all_instrs() if i.op in ("call", "invoke") and not (callee_of(i) or "llvm.").startswith("llvm.")]
    return P.fns.get(cs[0], g) if len(cs) == 1 else g

def mentioned(f):
    out = set()
    def walk(o):
        if isinstance(o, str) and o.startswith("@"): out.add(o[1:])
        elif isinstance(o, dict):
            for x in o.values(): walk(x)
        elif isinstance(o, list):
            for x in o: walk(x)
    for i in f.all_instrs():
        for k, o in enumerate(i.ops): walk(o)
        if i.op == "phi":
            for _, o in i.d["inc"]: walk(o)
    return out

def graph():
    P = ir.program()
    if not hasattr(P, "_graph"): P._graph = Graph(P)
    return P._graph

def user_call(c):
    """the name of the user's code that is called directly, if it is"""
    if c is None: return None
    if c.startswith("vcall$"):
        n = vcall_name(c)
        return n if USER.match(n) else None
    g = prog_fn(c)
    if g is not None and re.match(r"^std::function::operator\(\)$", strip_templates(g.q)): return "a std::function"
    return None

def direct(P):
    """{function name: (user code it calls itself, blocking calls it makes itself)}"""
    if hasattr(P, "_direct"): return P._direct
    d = {}
    for n, f in P.fns.items():
        if f.is_decl:
            q = f.q or n
            if BLOCK.match(n) or BLOCK.match(strip_templates(q)): d[n] = (None, q)
            continue
        us = [x for x in (user_call(c) for i, c in calls_of(f)) if x]
        bl = f.q if BLOCK.match(strip_templates(f.q or "")) else next((c for i, c in calls_of(f) if c and BLOCK.match(c)), None)
        if us or bl: d[n] = (us[0] if us else None, bl)
    P._direct = d
    return d

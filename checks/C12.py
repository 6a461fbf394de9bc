"""Every call of an operating-system or library function that can fail, in the sources of the whole program: on every path
of the functions making it (everything they use inlined) the result is examined before a normal return, a failure makes
the function throw or return a value its successful returns never do, and the result is not used before it is known to be
valid. The exceptions are the documented benign ones: a connect still in progress (by the error code read before anything
else can change it), an address that parses in the other family, and the program's name, for which there is a default."""
from lib import *
from contract import *
from checks.failures import *
import ir
RULES = {
    "noticed": ("the result of every call that can fail is examined before the function returns normally", 20),
    "fails": ("a function in which a call failed throws, or returns what it never returns on success", 1),
    "used": ("a result is not used before it is known to be valid", 0),
    "signal": ("writing to a connection its peer closed is reported as an error, not by a signal that ends the process", 1),
    "library": ("the resolver is not used when its library failed to initialize", 1),
}
N = L
GROUPS = [
    ("socket", [N + "Socket::.*", N + "Connect"], [], {"connect": pending}),
    ("platform", [N + "(SetSocketNonblocking|SetSocketReuseAddress|Read|WriteV|AtFork|GetProgramName)"], [], {"readlink": fallback}),
    ("address", [N + "IpAddress::IpAddress"], [], {"inet_pton": alternative}),
    ("events", [N + "Event::.*", N + "EventBase::.*"], [N + "ToTimeval"], {}),
    ("ares_library", [N + "AresLibraryHandle::[^:]*AresLibraryHandle"], [], {}),
    ("ares_channel", [N + "AresDnsResolver::[^:]*AresDnsResolver"], [N + "(Event|EventBase|TimerEvent|Logger|ToTimeval).*"], {}),
    ("atfork_random", [N + "GetRandomNumberGenerator"], [N + "AtFork", N + "(SeedGenerator|FastRandomNumberGenerator).*"], {}),
    ("atfork_recorder", [N + "ForkAwareRecorder::ForkAwareRecorder"], [N + "AtFork"], {}),
]
EXAMINED = re.compile(N + r"(SatelliteConnection::.*|Write)$")     # decided by C06 (Write) and C24 (reading responses)

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    P = ir.program(); P.need("network/"); P.need("common/")
    R.assume("the C functions' results are in their documented ranges; F_GETFL fails only for descriptors for which F_SETFL fails as well")
    R.assume("C library functions do not throw")
    R.assume("a wrapper that returns the result is analysed again in its callers")
    signal(R, P)
    covered = set()
    def where(i): return i.d.get("line"), i.d.get("file")
    def go(name, roots, barriers, benign):
        u = ir.view(name, roots, barriers)
        for f in u.roots:
            if f.is_decl: continue
            label = f.q
            def nm(i, n, f=f):
                fl = f.loc(i).rsplit(":", 1)[0]
                return "%s in %s" % (n, fl if n == "pthread_atfork" else f.q)
            a = Fallible(R, u, f, label, benign, nm)
            for i, n in a.sites.values(): covered.add((n, f.loc(i)))
            a.run()
    for g in GROUPS: go(*g)
    # what is not reached from the listed functions is analysed on its own
    rest = {}
    for f in P.fns.values():
        if f.is_decl or not in_repo(f): continue
        for i in f.all_instrs():
            if i.op not in ("call", "invoke"): continue
            n = api_of(P, i)
            if n and (n, f.loc(i)) not in covered and not EXAMINED.match(f.q):
                rest.setdefault(f.q, []).append((n, f.loc(i)))
    for k, q in enumerate(sorted(rest)):
        R.saw("further functions"); go("rest%d" % k, [re.escape(q)], [], {"connect": pending})
    library(R)

def in_repo(f): return (f.file or "").startswith("src/") or "/src/" in (f.file or "")

def library(R):
    """the shared handle is empty when initializing failed"""
    cls = N + "AresDnsResolver"
    off = member(cls, lambda n, t: "AresLibraryHandle" in t, "library handle")
    u = ir.view("ares_channel", [cls + "::[^:]*AresDnsResolver"], [N + "(Event|EventBase|TimerEvent|Logger|ToTimeval).*"])
    for f in u.roots:
        if f.is_decl or (f.dname or "").startswith("~"): continue
        def on_call(st, i, c):
            if c in ("ares_init_options", "ares_init") and st.checking:
                R.ob("library", f.q, st.ne(atom(mvar(arg(0), off))), f.loc(i), "the resolver is set up without checking that its library was initialized; facts: " + facts(st))
        me = arg(0)
        Mem(f, on_call=on_call, keep=lambda st, i, b: b == me and "Ares" not in (cname(u, i) or ""), partition=True).run()

MSG_NOSIGNAL, FLAGS = 0x4000, {"send": 3, "sendto": 3, "sendmsg": 2, "sendmmsg": 3}
def signal(R, P):
    """unless the process ignores SIGPIPE, whatever is written to a socket has to be written without raising it"""
    for f in P.fns.values():
        if f.is_decl or not ((f.file or "").startswith("src/") or "/src/" in (f.file or "")): continue
        for i in f.all_instrs():
            c = stem(callee_of(i) or "") if i.op in ("call", "invoke") else None
            if c in ("write", "writev", "pwritev"): ok = False
            elif c in FLAGS:
                e = Values(f).op(i.ops[FLAGS[c]])
                ok = is_const(e) and int(cval(e)) & MSG_NOSIGNAL != 0
            else: continue
            R.saw("writes to sockets")
            R.ob("signal", c, ok, f.loc(i), "a connection closed by its peer raises SIGPIPE, which ends the process, instead of being reported as an error")

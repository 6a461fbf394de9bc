"""Accounts for every handle on every path of its owner's operations, unwinding paths included: what was owned, handed in
or acquired is afterwards owned by exactly one living object or was released exactly once; a released handle is not used
again; owners cannot be copied; and handles are acquired and released nowhere else."""
from lib import *
from contract import *
from checks.handles import *
import ir
RULES = {
    "socket": ("every socket descriptor is owned by exactly one object or closed exactly once", 8),
    "connect": ("establishing a connection leaks no socket when it fails", 1),
    "library": ("the resolver library is cleaned up once exactly if it was initialized", 2),
    "event": ("every event and event loop is owned by exactly one object or freed exactly once", 8),
    "channel": ("the resolver's channel is destroyed once exactly if it was created", 2),
    "nocopy": ("an owner of a handle cannot be copied", 4),
    "outside": ("handles are acquired and released by their owners only", 6),
}
N = "lightstep::"
SOCK = Handle(N + "Socket", {"socket", "accept", "accept4", "dup"}, {"close"}, -1, lambda n, t: t == "int", adopts=lambda f, k: len(f.args) == this_arg(f) + 2 and f.args[k][1] == "i32")
EVENT = Handle(N + "Event", {"event_new"}, {"event_free"}, 0, lambda n, t: t.endswith("event"))
BASE = Handle(N + "EventBase", {"event_base_new"}, {"event_base_free"}, 0, lambda n, t: t.endswith("event_base"))
CHAN = Handle(N + "AresDnsResolver", {"ares_init_options"}, {"ares_destroy"}, 0, lambda n, t: "ares_channel" in t, out_param=0, never_empty=True)

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    P = ir.program(); P.need("network/")
    R.assume("C library functions do not throw")
    R.assume("objects are not moved onto themselves (asserted in the code)")
    u = ir.view("socket", [N + "Socket::.*", N + "Connect"], [])
    klass(R, "socket", u, SOCK)
    f = one(u, N + "Connect"); off = SOCK.off()
    if f.args[0][2] != 2: raise Broken("Connect does not return a socket")
    account(R, "connect", f.q, f, SOCK, [mvar(arg(0), off)], [], [])
    library(R)
    e = ir.view("events", [N + "Event::.*", N + "EventBase::.*"], [N + "ToTimeval"])
    klass(R, "event", e, EVENT); klass(R, "event", e, BASE)
    channel(R)
    for c in ("Socket", "Event", "EventBase", "AresLibraryHandle", "AresDnsResolver"): nocopy(R, "nocopy", N + c)
    for h in (SOCK, EVENT, BASE, CHAN): outside(R, "outside", h, [re.escape(h.cls) + "::.*", re.escape(N + "Connect")])

def library(R):
    cls = N + "AresLibraryHandle"
    u = ir.view("ares_library", [cls + "::[^:]*AresLibraryHandle"], [])
    for f in u.roots:
        if f.is_decl: continue
        dt = (f.dname or "").startswith("~")
        ob = lambda i, c, m, f=f: R.ob("library", f.q, c, f.loc(i), m)
        def init(st): st.set("init", 0); st.set("clean", 0)
        def on_call(st, i, c):
            if c == "ares_library_init":
                if st.get("init") < 2: st.set("init", st.get("init") + 1)
                st.assign("status", st.ai.v.lin(i.id)); return True
            if c == "ares_library_cleanup":
                if st.get("clean") < 2: st.set("clean", st.get("clean") + 1)
                return True
        def on_ret(st, i, r):
            if not st.checking: return
            R.saw("exits")
            if dt: ob(i, st.get("clean") == 1 and st.get("init") == 0, "the library is not cleaned up exactly once")
            else: ob(i, st.get("init") == 1 and st.get("clean") == 0 and st.eq(atom("status")), "a handle exists although the library was not initialized exactly once")
        def on_unwind(st, i):
            if not st.checking: return
            R.saw("unwinding exits")
            if dt: ob(i, False, "the destructor throws"); return
            ok = st.get("init") == 0 or (st.get("init") == st.get("clean") == 1 and st.eq(atom("status"))) or (st.get("init") == 1 and st.get("clean") == 0 and st.ne(atom("status")))
            ob(i, ok, "the library stays initialized although construction fails")
        Mem(f, init=init, on_call=on_call, on_ret=on_ret, on_unwind=on_unwind, partition=True).run(); R.saw("functions")
    # nothing but the handle initializes it
    for c in ("ares_library_init", "ares_library_cleanup"):
        hs = Handle(cls, {c}, set(), 0, None)
        outside(R, "outside", hs, [re.escape(cls) + "::.*"])

def channel(R):
    cls = CHAN.cls; off = CHAN.off()
    u = ir.view("ares_channel", [cls + "::[^:]*AresDnsResolver"], [N + "(Event|EventBase|TimerEvent|Logger|ToTimeval).*"])
    n = 0
    for f in u.roots:
        if f.is_decl or f.scope != cls: continue
        me = mvar(arg(0), off)
        if (f.dname or "").startswith("~"): account(R, "channel", f.q, f, CHAN, [], [], [me]); n += 1
        else: account(R, "channel", f.q, f, CHAN, [me], [], []); n += 1
    if n < 2: raise Broken("construction and destruction of the resolver not found")

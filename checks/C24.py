"""What every way through the handlers of a satellite connection leaves behind: an established connection with its events, or everything released and one retry, or a finished shutdown."""
from lib import *
from absint import Values
from checks.paths import Paths
import ir
RULES = {
    "outcome": ("every way out of a handler leaves the connection established or waiting for its event, or released with exactly one retry scheduled, or shut down for good", 11),
    "released": ("before a new connection is opened everything of the old one has been released", 3),
    "shutdown": ("no connection is opened and no retry is scheduled while the tracer is shutting down", 3),
    "wired": ("events and timers call the method they are for, on the connection they belong to", 5),
}
N = "lightstep::"; C = N + "SatelliteConnection"; S = C + "::"
ROOTS = {"Start": "connect", "Connect": "connect", "Reconnect": "again", "GracefulShutdownTimeout": "again", "OnSocketError": "again", "HandleFailure": "fail", "Flush": "flush", "OnWritable": "flush", "OnReadable": "read", "InitiateReconnect": "close", "InitiateStreamShutdown": "close", "InitiateShutdown": "stop"}
EVENTS = ("read_event_", "write_event_", "reconnect_timer_", "graceful_shutdown_timeout_")
BAR = [N + "(Event|EventBase|Socket|ConnectionStream|StatusLineParser|HostHeader|SatelliteStreamer|SatelliteEndpointManager|IpAddress)::.*", N + "Logger::.*",
       N + "(Connect|GenerateRandomDuration|Read|Write|GetLastErrorCode|GetErrorCodeMessage|IsBlockingErrorCode).*", "std::.*", "opentracing::.*"]
# nothing can be scheduled any more when these fail
LAST = {N + "EventBase::OnTimeout", N + "Event::Remove", N + "ConnectionStream::Reset"}

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    P = ir.program(); P.need("recorder/stream_recorder/satellite_connection.cpp")
    R.assume("libevent calls a callback for what its event was made for; the handlers of one connection only run on the event loop's thread")
    u = ir.view("satconn", [S + "(" + "|".join(ROOTS) + ")"], BAR)
    # members of the connection that can be told apart by where they lie
    offs = {e["off"]: e["n"] for e in members(C)}
    got = {f.q.split("::")[-1]: f for f in u.roots}
    for n in ROOTS:
        if n not in got and n in ("Start", "Flush", "InitiateShutdown"): raise Broken("%s is gone" % (S + n))
    for n, f in sorted(got.items()): handler(R, u, f, ROOTS[n], offs)
    wired(R, P, u, offs)

def handler(R, u, f, kind, offs):
    R.saw("handlers")
    v = Values(f); nm = lambda i: strip_templates(cname(u, i) or "")
    def member(o):
        e = v.op(o); a = [x for x in e if x != ONE]
        return offs.get(int(cval({ONE: e.get(ONE, 0)}))) if len(a) == 1 and e[a[0]] == 1 and a[0] == "arg0" else None
    stopping = {i.id for i in f.all_instrs() if i.op == "load" and member(i.ops[0]) == "is_shutting_down_"}
    retries = {i.id for i in f.all_instrs() if i.op in ("call", "invoke") and nm(i) == N + "EventBase::OnTimeout"}
    flags = {i.id for i in f.all_instrs() if i.op == "load" and member(i.ops[0]) in ("writable_", "was_shutdown_")}
    # whether there is a socket at all
    valid = {i.id for i in f.all_instrs() if i.op == "icmp" and i.d["pred"] in ("eq", "ne", "sgt", "slt", "sge") and any(f.val(o) is not None and f.val(o).op in ("call", "invoke") and nm(f.val(o)) == N + "Socket::file_descriptor" and member(f.val(o).ops[0]) == "socket_" for o in i.ops)}
    def shutting(s): return s.get("stopping", None) if s.get("stopping") is not None else True if any(s.get(k) is True for k in stopping) else False if any(s.get(k) is False for k in stopping) else None
    def released(s): return s.get("socket_") == "none" and s.get("read_event_") in ("none", "removed") and s.get("write_event_") in ("none", "removed") and s.get("reconnect_timer_") in ("removed", "none") and \
        s.get("graceful_shutdown_timeout_") in ("removed", "none") and s.get("writable_") is False and s.get("connection_stream_") == "reset" and s.get("status_line_parser_") == "reset"
    def connected(s): return s.get("socket_") == "new" and all(s.get(e) == "armed" for e in EVENTS[:3])
    def step(s, i):
        if i.op == "landingpad" and s.get("unwinding") in retries and s.get("retry", 0): s["retry"] -= 1
        if i.op == "store":
            m = member(i.ops[1])
            if m in ("writable_", "was_shutdown_"): s[m] = True if str(i.ops[0]) in ("1", "true") else False if str(i.ops[0]) in ("0", "false") else ("value", i.ops[0])
            if m == "is_shutting_down_": s["stopping"] = str(i.ops[0]) in ("1", "true")
        if i.id in stopping and s.get("stopping") is not None: s[i.id] = s["stopping"]
        if i.id in valid and str(i.ops[1]) in ("-1", "0"):
            k = s.get("socket_") or ("new" if any(s.get(x) is True for x in writable) else None)
            if k in ("new", "none"): s[i.id] = (k == "none") == (i.d["pred"] in ("eq", "slt"))
        if i.op not in ("call", "invoke"): return
        n = nm(i)
        if not n.startswith(N) or not i.ops: return
        m = member(i.ops[0])
        a = f.val(i.ops[0]); a = a.id if a is not None and a.op == "alloca" else None
        if n == N + "Connect" and a is not None: s[("made", a)] = "new"; s["opened"] = True
        elif n == N + "Socket::Socket" and a is not None: s[("made", a)] = "none" if len(i.ops) == 2 and str(i.ops[1]) == "-1" else "other"
        elif n == N + "Event::Event" and a is not None: s[("made", a)] = "none" if len(i.ops) == 1 else "new"
        elif n in (N + "Socket::operator=", N + "Event::operator=") and m:
            b = f.val(i.ops[1]); s[m] = s.get(("made", b.id if b is not None else None), "other")
        elif n.endswith("::~Socket") or n.endswith("::~Event"): s.pop(("made", a), None)
        elif n == N + "Event::Add" and m: s[m] = "armed"
        elif n == N + "Event::Remove" and m: s[m] = "removed"
        elif n in (N + "ConnectionStream::Reset", N + "StatusLineParser::Reset") and m: s[m] = "reset"
        elif i.id in retries: s["retry"] = min(s.get("retry", 0) + 1, 2)
    writable = {i.id for i in f.all_instrs() if i.op == "load" and member(i.ops[0]) == "writable_"}
    for i in f.all_instrs():
        if i.op == "store" and member(i.ops[1]) in ("writable_", "was_shutdown_") and f.val(i.ops[0]) is not None:
            x = f.val(i.ops[0])
            while x.op in ("zext", "trunc", "freeze") and f.val(x.ops[0]) is not None: x = f.val(x.ops[0])
            flags.add(x.id)
    p = Paths(f, step, {}, keep=stopping | flags | valid | branchy(f, stopping | flags | valid))
    def ok(s):
        r = s.get("retry", 0); armed = lambda e: s.get(e) == "armed"
        # given up: released, then one retry, or the end of a shutdown
        gone = s.get("socket_") == "none" or s.get("connection_stream_") == "reset"
        if s.get("socket_") == "new": return connected(s) and r == 0
        if gone: return released(s) and (r == 1 and s.get("was_shutdown_") is not True or r == 0 and s.get("was_shutdown_") is True and shutting(s) is True)
        if r: return False
        if not s.get("opened") and s.get("was_shutdown_") is True: return kind in ("connect",) and shutting(s) is True
        if kind == "connect": return False
        if kind == "flush": return s.get("writable_") is True and not armed("write_event_") or s.get("writable_") is False and armed("write_event_")
        if kind == "read": return armed("read_event_")
        if kind in ("close", "stop"): return armed("graceful_shutdown_timeout_") or shutting(s) is True and (kind == "close" or not any(k for k in s if isinstance(k, str) and k.endswith("_")))
        return False
    n_open = []
    def visit(s, i):
        if any(isinstance(x, tuple) for x in s.values()): s = {k: p.value(s, x[1]) if isinstance(x, tuple) and x[0] == "value" else x for k, x in s.items()}
        if i.op in ("call", "invoke") and nm(i) == N + "Connect":
            n_open.append(i)
            if kind not in ("connect",): R.ob("released", f.q, released(s), f.loc(i), "a connection is opened although the old one has not been released: %s" % missing(s))
            R.ob("shutdown", f.q, shutting(s) is False, f.loc(i), "a connection may be opened while the tracer is shutting down")
        if i.id in retries: R.ob("shutdown", f.q, shutting(s) is False, f.loc(i), "a retry may be scheduled while the tracer is shutting down")
        if i.op == "store" and member(i.ops[1]) == "is_shutting_down_" and s.get("retry", 0): R.ob("shutdown", f.q, False, f.loc(i), "a retry has been scheduled when the shutdown is noted")
        if i.op == "ret":
            good = ok(s)
            w = s.get("unwinding"); last = nm(f.ins[w]) if w in f.ins and f.ins[w].op == "invoke" else ""
            if not good and last in LAST: R.ob("outcome", "%s fails while a connection is given up" % last, False, f.loc(f.ins[w]), "the connection is never made again")
            else: R.ob("outcome", f.q, good, f.loc(i), "what is left behind: %s" % shown(s))
    p.each(visit)

def branchy(f, ids):
    """conditions only made of those values"""
    out = set(ids); ch = True
    while ch:
        ch = False
        for i in f.all_instrs():
            if i.id not in out and i.op in ("icmp", "trunc", "zext", "xor", "and", "freeze", "phi"):
                vs = [f.val(o) for o in (i.ops if i.op != "phi" else [o for _, o in i.d["inc"]])]
                vs = [x for x in vs if x is not None]
                if vs and all(x.id in out for x in vs): out.add(i.id); ch = True
    return out
def shown(s):
    return ", ".join("%s %s" % (k, {True: "true", False: "false"}.get(x, x)) for k, x in sorted((k, x) for k, x in s.items() if isinstance(k, str) and (k.endswith("_") or k == "retry"))) or "nothing"
def missing(s):
    return ", ".join(k for k, good in (("socket", s.get("socket_") == "none"), ("read event", s.get("read_event_") in ("none", "removed")), ("write event", s.get("write_event_") in ("none", "removed")), ("reconnect timer", s.get("reconnect_timer_") == "removed"),
        ("shutdown timer", s.get("graceful_shutdown_timeout_") == "removed"), ("writable flag", s.get("writable_") is False), ("stream", s.get("connection_stream_") == "reset"), ("parser", s.get("status_line_parser_") == "reset")) if not good)

WANT = {"read_event_": "OnReadable", "write_event_": "OnWritable", "reconnect_timer_": "InitiateReconnect", "graceful_shutdown_timeout_": "GracefulShutdownTimeout", "retry": "Connect"}
def wired(R, P, u, offs):
    """what the callbacks given to events run"""
    w = ir.view("satconn_ctor", [S + "SatelliteConnection", S + "(Connect|HandleFailure)"], BAR)
    seen = set()
    for f in w.roots:
        v = Values(f); nm = lambda i: strip_templates(cname(w, i) or "")
        def member(o):
            e = v.op(o); a = [x for x in e if x != ONE]
            return offs.get(int(cval({ONE: e.get(ONE, 0)}))) if len(a) == 1 and e[a[0]] == 1 and a[0] == "arg0" else None
        made = {}
        for i in f.all_instrs():
            if i.op in ("call", "invoke") and nm(i) == N + "Event::operator=" and member(i.ops[0]):
                b = f.val(i.ops[1]); made[b.id if b is not None else None] = member(i.ops[0])
        for i in f.all_instrs():
            if i.op not in ("call", "invoke"): continue
            n = nm(i); fn = None
            if n == N + "Event::Event" and len(i.ops) == 6:
                a = f.val(i.ops[0]); e = member(i.ops[0]) or made.get(a.id if a is not None else None); fn, ctx = i.ops[4], i.ops[5]
            elif n == N + "EventBase::OnTimeout": e, fn, ctx = "retry", i.ops[2], i.ops[3]
            if fn is None or e is None: continue
            g = P.fns.get(re.sub(r"^@", "", str(fn)))
            tg = reached(P, re.sub(r"^@", "", str(fn)))
            seen.add(e)
            R.ob("wired", e, (S + WANT.get(e, "?")) in tg, f.loc(i), "the callback runs %s" % (", ".join(sorted(tg)) or "something else"))
            R.ob("wired", e, v.op(ctx) == atom("arg0"), f.loc(i), "the callback is given another object than the connection")
    for e in WANT:
        if e not in seen: R.ob("wired", e, False, "", "it is never set up")
def reached(P, name):
    """the methods of the connection a callback leads to"""
    out = set(); seen = set(); work = [name]
    while work:
        n = work.pop(); g = P.fns.get(n)
        if n in seen or g is None or g.is_decl: continue
        seen.add(n)
        for j in g.all_instrs():
            if j.op not in ("call", "invoke") or not callee_of(j): continue
            q = strip_templates(prog_fn(callee_of(j)).q or "") if prog_fn(callee_of(j)) is not None else ""
            if q.startswith(S): out.add(q)
            else: work.append(callee_of(j))
    return out

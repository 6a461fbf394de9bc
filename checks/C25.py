"""What every way through the resolver and the resolution managers leaves behind: a query with its timer and watched sockets, one report per query, and one next resolution."""
from lib import *
from absint import Values
from checks.paths import Paths
from checks.C24 import reached
import ir
RULES = {
    "reported": ("when a query ends its callback is called exactly once, with an error message exactly if it failed", 1),
    "driven": ("starting a query and processing an event leave the timer set to when the resolver has to be called next", 2),
    "watched": ("a socket the resolver wants to read or write is watched for exactly that until it says otherwise", 1),
    "again": ("every way out of the handling of a resolution's outcome has scheduled exactly one next resolution, which asks for the same name again", 3),
    "kept": ("the addresses known are only replaced by addresses, and the first ones are announced", 1),
}
N = "lightstep::"; A = N + "AresDnsResolver"; D = N + "SatelliteDnsResolutionManager"
BAR = [N + "(Event|EventBase|TimerEvent|IpAddress)::.*", N + "Logger::.*", N + "GenerateRandomDuration.*", "std::.*", "opentracing::.*"]
NOTHROW_END = re.compile(r"__clang_call_terminate|__cxa_end_catch")

class Fn:
    def __init__(self, u, f):
        self.u = u; self.f = f; self.v = Values(f)
    def name(self, i):
        c = callee_of(i) or ""
        return strip_templates(vcall_name(c) if c.startswith("vcall") else cname(self.u, i) or c)
    def offs(self, o):
        """the constant distance from `this`"""
        e = self.v.op(o); a = [x for x in e if x != ONE]
        return int(cval({ONE: e.get(ONE, 0)})) if len(a) == 1 and e[a[0]] == 1 and a[0] == "arg0" else None
    def calls(self, n): return [i for i in self.f.all_instrs() if i.op in ("call", "invoke") and self.name(i) == n]
    def base(self, o):
        i = self.f.val(o)
        while i is not None and i.op in ("getelementptr", "bitcast"): i = self.f.val(i.d.get("base") or i.ops[0])
        return i.id if i is not None and i.op == "alloca" else None
    def loaded(self, o):
        """what lies at the place a value was read from"""
        i = self.f.val(o)
        return self.base(i.ops[0]) if i is not None and i.op == "load" else None
    def member(self, o, offs):
        """the member a value was read from, or a member's address"""
        i = self.f.val(o)
        return offs.get(self.offs(i.ops[0])) if i is not None and i.op == "load" else None

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    P = ir.program(); P.need("network/ares_dns_resolver/ares_dns_resolver.cpp", "recorder/stream_recorder/satellite_dns_resolution_manager.cpp")
    R.assume("c-ares calls a query's callback once, from ares_gethostbyname, ares_process_fd or ares_destroy, and asks for a socket's state with 0 or 1; libevent calls a callback for what its event was made for")
    u = ir.view("dns", [A + "::(Resolve|OnSocketStateChange|OnEvent|OnTimeout)", N + "OnDnsResolution", D + "::(Start|OnDnsResolution|OnRefresh|OnFailure|ScheduleRefresh)"], BAR)
    got = {f.q: Fn(u, f) for f in u.roots}
    def need(n):
        if n not in got: raise Broken("%s is gone" % n)
        return got[n]
    ao = {e["off"]: e["n"] for e in members(A)}; do = {e["off"]: e["n"] for e in members(D)}
    reported(R, P, got, need)
    for n in ("Resolve", "OnEvent", "OnTimeout"):
        if n == "OnTimeout" and A + "::OnTimeout" not in got: continue
        driven(R, P, need(A + "::" + n), n, ao)
    watched(R, P, need(A + "::OnSocketStateChange"), ao)
    for n in ("Start", "OnDnsResolution", "OnRefresh", "OnFailure", "ScheduleRefresh"):
        if D + "::" + n in got: again(R, P, got[D + "::" + n], n, do)
    need(D + "::Start"); need(D + "::OnDnsResolution")

def global_of(o):
    if isinstance(o, dict): return global_of(o.get("base"))
    return o[1:] if isinstance(o, str) and o.startswith("@") else None

def reported(R, P, got, need):
    x = got.get(N + "OnDnsResolution")
    # the callback given to the resolver
    r = need(A + "::Resolve")
    asks = r.calls("ares_gethostbyname")
    R.ob("reported", A + "::Resolve", len(asks) == 1, r.f.loc(asks[0]) if asks else "", "a resolution is not one query")
    if not asks: return
    a = asks[0]
    R.ob("reported", A + "::Resolve", r.v.op(a.ops[1]) == atom("arg1") and r.v.op(a.ops[2]) == atom("arg2") and r.v.op(a.ops[4]) == atom("arg3"), r.f.loc(a), "the query is not for the name and family given, with the callback given")
    if x is None:
        g = global_of(a.ops[3]); q = P.fns[g].q if g in P.fns else None
        w = ir.view("dns_cb", [re.sub(r"([.()\[\]*+?{}|^$\\])", r"\\\1", q)] if q else [], BAR) if q else None
        x = Fn(w, w.roots[0]) if w is not None and w.roots else None
    if x is None: raise Broken("the callback of dns queries was not found")
    R.saw("handlers"); f = x.f
    cb = {i.id for i in x.calls(N + "DnsResolutionCallback::OnDnsResolution")}
    vt = {}
    def step(s, i):
        if i.op == "store":
            g = global_of(i.ops[0]); b = x.base(i.ops[1])
            if g and g.startswith("_ZTV") and b is not None: s[("res", b)] = "none" if g == "_ZTVN9lightstep13DnsResolutionE" else "some"
        if i.op not in ("call", "invoke"): return
        n = x.name(i)
        if n.startswith("opentracing::") and n.endswith("string_view::string_view"):
            b = x.base(i.ops[0]); o = x.f.val(i.ops[1]) if len(i.ops) > 1 else None
            s[("msg", b)] = "none" if len(i.ops) == 1 else "error" if o is not None and o.op in ("call", "invoke") and x.name(o) == "ares_strerror" and x.v.op(o.ops[0]) == atom("arg1") else "text"
        if i.id in cb: s["done"] = min(2, s.get("done", 0) + 1)
    p = Paths(f, step, {}, keep=None)
    def visit(s, i):
        bad = p.value(s, "%1")
        if i.id in cb:
            R.ob("reported", f.q, x.v.op(i.ops[0]) == atom("arg0"), f.loc(i), "another callback than the query's is called")
            msg = s.get(("msg", x.loaded(i.ops[2]))); res = s.get(("res", x.base(i.ops[1])))
            R.ob("reported", f.q, bad is not None, f.loc(i), "the outcome is reported without regard to the status")
            if bad is True: R.ob("reported", f.q, msg == "error", f.loc(i), "a failed query is reported without the error")
            if bad is False:
                R.ob("reported", f.q, msg == "none", f.loc(i), "a successful query is reported as an error")
                R.ob("reported", f.q, res == ("none" if p.value(s, "%3") is False else "some"), f.loc(i), "the hosts found are not what is reported")
                if p.value(s, "%3") is None: R.ob("reported", f.q, False, f.loc(i), "hosts are used that may not be there")
        if i.op == "ret": R.ob("reported", f.q, s.get("done", 0) == 1, f.loc(i), "the query's callback has been called %s" % ("more than once" if s.get("done") else "not at all"))
    p.each(visit)

def driven(R, P, x, n, ao):
    R.saw("handlers"); f = x.f
    start = "ares_gethostbyname" if n == "Resolve" else "ares_process_fd"
    def chan(o): return x.member(o, ao) == "channel_"
    def step(s, i):
        if i.op == "landingpad" and s.get("unwinding") is not None: s["failed"] = True
        if i.op not in ("call", "invoke"): return
        m = x.name(i)
        if m == start: s["started"] = min(2, s.get("started", 0) + 1); s.pop("asked", None); s.pop("set", None)
        elif m == "ares_timeout": s["asked"] = i.id
        elif m == N + "TimerEvent::Reset" and ao.get(x.offs(i.ops[0])) == "timer_":
            o = f.val(i.ops[1]) if len(i.ops) > 1 else None
            s["set"] = o is not None and s.get("asked") == o.id
    p = Paths(f, step, {})
    def visit(s, i):
        if i.op in ("call", "invoke") and x.name(i) in ("ares_gethostbyname", "ares_process_fd", "ares_timeout"): R.ob("driven", f.q, chan(i.ops[0]), f.loc(i), "another channel is used")
        if i.op in ("call", "invoke") and x.name(i) == "ares_timeout": R.ob("driven", f.q, str(i.ops[1]) == "null", f.loc(i), "the time to wait is limited")
        if i.op == "ret":
            R.ob("driven", f.q, s.get("started", 0) == 1, f.loc(i), "the resolver is called %s times" % s.get("started", 0))
            # what is thrown by setting the timer itself is reported
            w = s.get("unwinding"); last = x.name(f.ins[w]) if w in f.ins else ""
            R.ob("driven", f.q, s.get("set") is True or s.get("failed") is True and last in (N + "TimerEvent::Reset", "ares_timeout", start), f.loc(i), "the timer is not set to when the resolver has to be called again")
        if n == "OnTimeout" and i.op in ("call", "invoke") and x.name(i) == start: R.ob("driven", f.q, all(str(o) == "-1" for o in i.ops[1:3]), f.loc(i), "a time-out is handled as if a socket was ready")
    p.each(visit)
    if n == "OnEvent":
        for what in range(8):
            for calls in constant(f, {"%2": what}):
                for i, vals in calls:
                    if x.name(i) != start: continue
                    for k, bit, t in ((1, 2, "readable"), (2, 4, "writable")):
                        o = i.ops[k]; val = vals(o); fd = symbol(f, o, vals)
                        R.ob("driven", f.q, (fd == "%1") if what & bit else val == -1, f.loc(i), "a socket that is %s%s is handed to the resolver as %s" % ("" if what & bit else "not ", t, val if val is not None else fd))

def symbol(f, o, vals):
    return vals(o, sym=True)

def constant(f, env, limit=400):
    """the calls along every path taken when arguments have these values: [(instruction, value-of function)], exceptions left out"""
    out = []; n = [0]
    M = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}
    def sgn(v, ty):
        b = M.get(ty)
        if b is None or v is None: return v
        v &= (1 << b) - 1
        return v - (1 << b) if b > 1 and v >> (b - 1) else v
    def get(vals, o, sym=False):
        if isinstance(o, bool): return int(o)
        if isinstance(o, int): return o
        if isinstance(o, str):
            if re.match(r"^-?\d+$", o): return int(o)
            if o in ("true", "false"): return int(o == "true")
            if o == "null": return 0
            if o in env: return env[o]
            if o.startswith("%"):
                if o[1:].isdigit() and int(o[1:]) in vals:
                    r = vals[int(o[1:])]
                    return get(vals, r, sym) if isinstance(r, str) else r
                i = f.val(o)
                if i is not None and i.op in ("zext", "sext", "trunc", "freeze") and sym: return get(vals, i.ops[0], sym)
                return o if sym and i is None else None
        return None
    def run(b, prev, vals, calls, depth):
        n[0] += 1
        if n[0] > limit or depth > 200: raise Broken("too many paths through %s" % f.q)
        new = {}
        for i in f.blocks[b]:
            if i.op == "phi":
                for blk, o in i.d["inc"]:
                    if pred(blk, prev, b):
                        r = get(vals, o); new[i.id] = r if r is not None else o if isinstance(o, str) else None
        vals = dict(vals); vals.update({k: v for k, v in new.items() if v is not None})
        for i in f.blocks[b]:
            if i.op == "phi": continue
            if i.op in ("or", "and", "xor", "add", "sub", "shl", "icmp", "select", "zext", "sext", "trunc", "freeze"):
                a = [get(vals, o) for o in i.ops]; r = None
                if i.op == "select":
                    if a[0] is not None:
                        o = i.ops[1 if a[0] else 2]; r = get(vals, o); r = r if r is not None else o
                elif None not in a:
                    if i.op == "icmp":
                        x, y = a; pr = i.d["pred"]; ux, uy = x & (2**64 - 1), y & (2**64 - 1)
                        r = int({"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y, "ult": ux < uy, "ule": ux <= uy, "ugt": ux > uy, "uge": ux >= uy}[pr])
                    else:
                        r = {"or": lambda x, y: x | y, "and": lambda x, y: x & y, "xor": lambda x, y: x ^ y, "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "shl": lambda x, y: x << y}.get(i.op, lambda x: x)(*a)
                        r = sgn(r, i.ty)
                elif i.op == "and" and 0 in a: r = 0
                if r is not None: vals[i.id] = r
            elif i.op in ("call", "invoke"):
                v2 = dict(vals); calls = calls + [(i, lambda o, sym=False, v=v2: get(v, o, sym))]
        t = f.blocks[b][-1]; ss = list(f.succ[b])
        if t.op == "ret": out.append(calls); return
        if t.op == "unreachable": return
        if t.op == "invoke": ss = [s for s in ss if s != t.d.get("unwind")]
        elif t.op == "br" and t.ops:
            c = get(vals, t.ops[0])
            if c is not None: ss = [f.succ[b][0 if c else 1]]
        elif t.op == "switch": raise Broken("a switch in %s" % f.q)
        for s in ss: run(s, b, vals, calls, depth + 1)
    def pred(blk, prev, b): return blk == prev
    run(0, None, {}, [], 0)
    return out

def watched(R, P, x, ao):
    R.saw("handlers"); f = x.f
    events = [i for i in x.calls(N + "Event::Event") if len(i.ops) == 6]
    for i in events:
        tg = global_of(i.ops[4])
        R.ob("watched", f.q, A + "::OnEvent" in rch(P, tg, A) and x.v.op(i.ops[5]) == atom("arg0"), f.loc(i), "the event of a socket does not run OnEvent of this resolver")
    for rd in (0, 1):
        for wr in (0, 1):
            for calls in constant(f, {"%2": rd, "%3": wr}):
                made = [(i, v) for i, v in calls if x.name(i) == N + "Event::Event" and len(i.ops) == 6]
                adds = [i for i, _ in calls if x.name(i) == N + "Event::Add"]
                drop = [i for i, _ in calls if x.name(i) == "std::unordered_map::erase"]
                kept = [i for i, _ in calls if x.name(i) == N + "Event::operator="] + [i for i, _ in calls if re.search(r"unordered_map::(emplace|insert|insert_or_assign)$", x.name(i))]
                at = f.loc((made or adds or drop or [(None, None)])[0][0] if made else (adds or drop)[0]) if made or adds or drop else ""
                t = " and ".join(n for n, b in (("readable", rd), ("writable", wr)) if b)
                if not rd and not wr:
                    R.ob("watched", f.q, bool(drop) and not made and x.offs(drop[0].ops[0]) is not None and ao.get(x.offs(drop[0].ops[0])) == "socket_events_", at, "a socket the resolver has done with stays watched")
                    continue
                if not R.ob("watched", f.q, len(made) == 1 and len(adds) == 1 and (bool(kept)) and not drop_after(calls, drop, made), at, "a socket to be watched until it is %s is not (%d events, %d added, %d kept)" % (t, len(made), len(adds), len(kept))): continue
                i, v = made[0]; flags = v(i.ops[3]); want = 16 | 2 * rd | 4 * wr
                R.ob("watched", f.q, v(i.ops[2], sym=True) == "%1", f.loc(i), "another socket is watched")
                R.ob("watched", f.q, flags is not None and flags & 6 == want & 6, f.loc(i), "a socket to be watched until it is %s is watched for %s" % (t, flags))
                R.ob("watched", f.q, flags is not None and flags & 16, f.loc(i), "a socket is no longer watched after its first event")
                R.ob("watched", f.q, all(x.base(a.ops[0]) == x.base(i.ops[0]) or x.base(a.ops[0]) is None for a in adds), f.loc(i), "another event is added than is made")
def drop_after(calls, drop, made):
    order = [i for i, _ in calls]
    return any(order.index(d) > order.index(made[0][0]) for d in drop) if made else False
def rch(P, name, cls):
    out = set(); seen = set(); work = [name]
    while work:
        n = work.pop(); g = P.fns.get(n)
        if n in seen or g is None or g.is_decl: continue
        seen.add(n)
        for j in g.all_instrs():
            if j.op not in ("call", "invoke") or not callee_of(j): continue
            h = prog_fn(callee_of(j)); q = strip_templates(h.q or "") if h is not None else ""
            if q.startswith(cls + "::"): out.add(q)
            else: work.append(callee_of(j))
    return out

def again(R, P, x, n, do):
    R.saw("handlers"); f = x.f
    asks = {i.id for i in x.calls(N + "DnsResolver::Resolve")}
    later = {i.id for i in x.calls(N + "EventBase::OnTimeout")}
    if n in ("Start", "OnRefresh"):
        def step(s, i):
            if i.id in asks: s["asked"] = min(2, s.get("asked", 0) + 1)
        def visit(s, i):
            if i.id in asks:
                R.ob("again", f.q, x.member(i.ops[1], do) == "name_" and x.member(i.ops[2], do) == "family_" and x.v.op(i.ops[3]) == atom("arg0"), f.loc(i), "the query is not for this manager's name and family, with this manager as its callback")
            if i.op == "ret": R.ob("again", f.q, s.get("asked", 0) == 1, f.loc(i), "%d queries are made" % s.get("asked", 0))
        Paths(f, step, {}).each(visit); return
    for i in f.all_instrs():
        if i.id in later:
            R.ob("again", f.q, D + "::OnRefresh" in rch(P, global_of(i.ops[2]), D) and x.v.op(i.ops[3]) == atom("arg0"), f.loc(i), "the timer does not lead to another resolution by this manager")
            R.ob("again", f.q, x.member(i.ops[0], do) == "event_base_", f.loc(i), "the timer is scheduled elsewhere")
    err = {i.id for i in f.all_instrs() if i.op in ("call", "invoke") and x.name(i).endswith("string_view::empty")}
    anew = {i.id: i for i in f.all_instrs() if i.op in ("call", "invoke") and x.name(i) == "std::vector::empty"}
    cells = lambda o: do.get(x.offs(o))
    stores = [i for i in f.all_instrs() if i.op in ("call", "invoke") and re.match(r"std::vector::(operator=|swap|assign|push_back|emplace_back|clear|erase|pop_back|resize|insert)$", x.name(i)) and any(cells(o) == "ip_addresses_" for o in i.ops[:2] if isinstance(o, str))]
    sid = {i.id for i in stores}
    ready = {i.id for i in f.all_instrs() if i.op in ("call", "invoke") and x.name(i) == "std::function::operator()" and cells(i.ops[0]) == "on_ready_callback_"}
    mine = {k for k, i in anew.items() if cells(i.ops[0]) == "ip_addresses_"}
    # whether the addresses found are none: asked of a vector or its size
    sizes = {i.id: i for i in f.all_instrs() if i.op in ("call", "invoke") and x.name(i) == "std::vector::size"}
    mine |= {k for k, i in sizes.items() if cells(i.ops[0]) == "ip_addresses_"}
    def truth(s, k):
        v = s.get(k)
        return None if v is None else v if k in anew else not v
    def step(s, i):
        if i.op == "landingpad" and s.get("unwinding") in later and s.get("again", 0): s["again"] -= 1; s["lost"] = True
        if i.id in later: s["again"] = min(2, s.get("again", 0) + 1)
        if i.id in sid: s["kept"] = min(2, s.get("kept", 0) + 1)
        if i.id in ready: s["ready"] = min(2, s.get("ready", 0) + 1)
        if i.id in mine and s.get("kept"): s[i.id] = None; s["late"] = True
    p = Paths(f, step, {})
    def visit(s, i):
        if i.id in sid:
            o = [x.base(o) for o in i.ops[:2] if cells(o) is None]
            full = any(truth(s, k) is False for k, j in list(anew.items()) + list(sizes.items()) if x.base(j.ops[0]) in o and x.base(j.ops[0]) is not None)
            R.ob("kept", f.q, full, f.loc(i), "the addresses known may be replaced by none")
            R.ob("kept", f.q, any(s.get(k) is True for k in err), f.loc(i), "the addresses known are replaced although the resolution failed")
        if i.op == "ret":
            w = s.get("unwinding"); last = x.name(f.ins[w]) if w in f.ins else ""
            a = s.get("again", 0)
            if a == 0 and last == N + "EventBase::OnTimeout": R.ob("again", "lightstep::EventBase::OnTimeout fails", False, f.loc(f.ins[w]), "the name is never resolved again")
            else: R.ob("again", f.q, a == 1, f.loc(i), "%s next resolution has been scheduled" % ("no" if a == 0 else "more than one"))
            if n == "OnDnsResolution":
                known = [] if s.get("late") else [truth(s, k) for k in mine if s.get(k) is not None]
                if s.get("kept"):
                    R.ob("kept", f.q, s["kept"] == 1, f.loc(i), "the addresses known are replaced twice")
                    if s.get("ready"): R.ob("kept", f.q, s["ready"] == 1 and True in known, f.loc(i), "addresses are announced again")
                    else: R.ob("kept", f.q, False in known, f.loc(i), "the first addresses found are not announced")
                else: R.ob("kept", f.q, not s.get("ready"), f.loc(i), "it is announced that there are addresses when there are none")
                if any(s.get(k) is True for k in err) and any(truth(s, k) is False for k in list(anew) + list(sizes) if k not in mine) and last == "": R.ob("kept", f.q, s.get("kept", 0) == 1, f.loc(i), "addresses found are not kept")
    p.each(visit)

"""lightstep::Connect with everything it uses inlined: on every path to ::connect the very same descriptor has successfully
been put into non-blocking mode and set to reuse its address, and is a stream socket of the address's family; the address
passed has its family's size. On every path after it, an attempt in progress leads to a normal return of that socket and
only a real failure to an exception. In the whole program, sockets are made and connected nowhere else, and nothing else
changes a socket's mode."""
from lib import *
from contract import *
from checks.failures import *
from checks.handles import *
import ir
RULES = {
    "nonblocking": ("the socket is in non-blocking mode before a connection is attempted", 1),
    "reuse": ("address reuse is set before a connection is attempted", 1),
    "keeps-flags": ("making a socket non-blocking keeps its other flags", 1),
    "address": ("the socket and the size of the address passed are those of the address's family", 1),
    "progress": ("an attempt in progress is not a failure, and a failure is one", 1),
    "returned": ("the socket returned is the one the connection was started on", 1),
    "codes": ("the classification of error codes is exact", 2),
    "only": ("sockets are made, connected and configured nowhere else", 4),
}
N = L
SOCK = Handle(N + "Socket", {"socket", "accept", "accept4", "dup"}, {"close"}, -1, lambda n, t: t == "int")
STREAM, O_NONBLOCK, SOCK_FLAGS = 1, 2048, 2048 | 0o2000000
SIZES = {2: 16, 10: 28}

def bool_cases(st, o):
    """the states in which a boolean is true and false"""
    for truth in (True, False):
        s = State(st.ps, st.poly.copy(), st.ai, False)
        if isinstance(o, int): 
            if bool(o & 1) == truth: yield truth, s
            continue
        st.ai.assume(s, o, truth)
        if not s.poly.bot and s.poly.feasible(): yield truth, s

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    P = ir.program(); P.need("network/")
    R.assume("C library functions do not throw and have their POSIX meaning; constants are Linux's")
    u = ir.view("socket", [N + "Socket::.*", N + "Connect"], [])
    f = one(u, N + "Connect"); connecting(R, u, f)
    codes(R)
    only(R)

def connecting(R, u, f):
    off = SOCK.off(); A = arg(1)
    if f.args[0][2] != 2: raise Broken("Connect does not return a socket")
    ob = lambda rule, i, c, m: R.ob(rule, f.q, c, f.loc(i), m)
    fam = mvar(A, 0)
    def setbit(o):
        """the flag is set in the value, and the rest comes from where"""
        if isinstance(o, int): return bool(o & O_NONBLOCK), None
        j = f.val(o)
        if j is not None and j.op == "or":
            for a, b in (j.ops, j.ops[::-1]):
                if isinstance(b, int) and b & O_NONBLOCK: return True, a
                if isinstance(a, str):
                    x, src = setbit(a)
                    if x: return True, src
        if j is not None and j.op in ("zext", "sext", "freeze"): return setbit(j.ops[0])
        return False, None
    def on_call(st, i, c):
        v = st.ai.v; r = v.lin(i.id)
        if c == "socket":
            st.poly.add_ge(add(r, const(1)))
            ty = i.ops[1]
            if st.checking:
                ob("address", i, st.eq(sub(v.op(i.ops[0]), atom(fam))), "the socket is not of the address's family; facts: " + facts(st))
                ob("address", i, isinstance(ty, int) and ty & ~SOCK_FLAGS == STREAM, "not a stream socket")
            st.assign("made", r); st.set("made", 1)
            if isinstance(ty, int) and ty & O_NONBLOCK: st.assign("nbfd", r); st.assign("nbres", {})
            return True
        if c == "fcntl":
            st.poly.add_ge(add(r, const(1)))
            if i.ops[1] == 3: st.set("get", i.id); st.assign("getfd", v.op(i.ops[0]))
            elif i.ops[1] == 4:
                bit, src = setbit(i.ops[2])
                if bit: st.assign("nbfd", v.op(i.ops[0])); st.assign("nbres", r)
                else: st.havoc("nbfd"); st.havoc("nbres")
                if st.checking:
                    ok = src is not None and st.get("get") is not None and st.eq(sub(v.op(src), v.lin(st.get("get")))) and st.eq(sub(atom("getfd"), v.op(i.ops[0])))
                    ob("keeps-flags", i, ok, "the descriptor's other flags are not kept")
            return True
        if c == "setsockopt":
            st.poly.add_ge(add(r, const(1))); st.poly.add_ge(scale(r, -1))
            if list(i.ops[1:3]) == [1, 2]:
                l = M.ptr(st, i.ops[3])
                on = l is not None and st.ne(atom(l)) and i.ops[4] == 4
                if on: st.assign("rafd", v.op(i.ops[0])); st.assign("rares", r)
                else: st.havoc("rafd"); st.havoc("rares")
            return True
        if c == "connect":
            st.poly.add_ge(add(r, const(1))); st.poly.add_ge(scale(r, -1))
            fd = v.op(i.ops[0])
            if st.checking:
                R.saw("connection attempts")
                ob("nonblocking", i, st.eq(sub(atom("nbfd"), fd)) and st.ge(atom("nbres")), "the socket may be blocking when connected; facts: " + facts(st))
                ob("reuse", i, st.eq(sub(atom("rafd"), fd)) and st.eq(atom("rares")), "address reuse may not be set on the socket; facts: " + facts(st))
                ob("address", i, st.eq(sub(v.op(i.ops[1]), atom(A))) and any(st.eq(sub(atom(fam), const(k))) and st.eq(sub(v.op(i.ops[2]), const(n))) for k, n in SIZES.items()), "the address's size does not fit its family; facts: " + facts(st))
                ob("progress", i, not st.get("conn"), "a connection is attempted twice")
            st.assign("cres", r); st.assign("cfd", fd); st.set("conn", 1); st.set("fresh", 1); return True
        if c == "__errno_location": st.set("eloc", i.id if st.get("fresh") else None); return True
        if not c.startswith("llvm."): st.set("fresh", 0)
        if c.startswith("__cxa") or c in ("close", "strerror"): return True
    def on_load(st, i):
        if st.get("eloc") is not None and i.ops[0] == "%%%d" % st.get("eloc") and st.get("fresh"): st.assign("err", v(i))
    def v(i): return M.v.lin(i.id)
    def on_ret(st, i, r):
        if not st.checking: return
        R.saw("exits")
        ob("returned", i, bool(st.get("conn")) and st.eq(sub(atom(mvar(arg(0), off)), atom("cfd"))) and st.ge(atom("cfd")), "the socket returned is not the one being connected; facts: " + facts(st))
        e = atom("err")
        ob("progress", i, st.eq(atom("cres")) or (st.ne(atom("cres")) and any(st.eq(sub(e, const(k))) for k in (EINPROGRESS, EAGAIN))), "the connection may have failed, but the socket is returned; facts: " + facts(st))
    def on_unwind(st, i):
        if not st.checking or not st.get("conn"): return
        e = atom("err")
        ob("progress", i, st.ne(atom("cres")) and all(st.ne(sub(e, const(k))) for k in (EINPROGRESS, EAGAIN)), "a connection that may be established or in progress is treated as a failure; facts: " + facts(st))
    M = Mem(f, on_call=on_call, on_ret=on_ret, on_load=on_load, on_unwind=on_unwind, partition=True, edge_hook=c_nothrow(f),
            keep=lambda st, i, b: b in (A, arg(0)) or (isinstance(b, int) and f.ins[b].op == "alloca" and not any(f.val(o) is f.ins[b] for o in i.ops if isinstance(o, str))))
    M.run(); R.saw("functions")
    if not any(o[0] == "nonblocking" for o in R.obs): R.ob("nonblocking", f.q, False, f.loc(final_ret(f)[0]) if final_ret(f) else f.file, "no connection is attempted at all")

def codes(R):
    u = ir.view("codes", [N + "IsBlockingErrorCode", N + "IsInProgressErrorCode"], [])
    for q, k in (("IsBlockingErrorCode", EAGAIN), ("IsInProgressErrorCode", EINPROGRESS)):
        f = one(u, N + q)
        def on_ret(st, i, r):
            if not st.checking: return
            for t, s in bool_cases(st, ret_op(i)):
                d = sub(atom(arg(0)), const(k))
                R.ob("codes", q, s.eq(d) if t else s.ne(d), f.loc(i), "wrong answer for some error code; facts: " + facts(s))
        Mem(f, on_ret=on_ret, partition=True).run()

def only(R):
    C = lambda *names: Handle(N + "Socket", set(names), set(), -1, None)
    inside = [re.escape(SOCK.cls) + "::.*", re.escape(N + "Connect")]
    outside(R, "only", C("connect", "socket", "fcntl", "setsockopt", "ioctl"), inside)
    # sockets of their own: only Connect makes them
    P = ir.program(); ok = only_from(inside); n = 0
    for f in P.fns.values():
        if f.is_decl: continue
        for i in f.all_instrs():
            if i.op not in ("call", "invoke"): continue
            g = P.fns.get(callee_of(i) or "")
            if g is None or g.scope != SOCK.cls: continue
            nm = strip_templates(g.dname or "")
            if nm == "Socket":
                pt = [param(g, k) for k in range(1, len(g.args))]
                if pt and "Socket" in pt[0]: continue            # a move
                if len(pt) == 1 and len(i.ops) > 1 and i.ops[1] == -1: continue      # an empty one
                R.ob("only", "Socket made in " + f.q, ok(f.name), f.loc(i), "a socket is made outside of Connect, so that it may be blocking")
            elif nm == "Connect": R.ob("only", "Socket::Connect in " + f.q, ok(f.name), f.loc(i), "a socket is connected outside of Connect")
            n += 1
    R.saw("uses of sockets", n)

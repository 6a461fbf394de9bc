"""Results of system and library calls that can signal failure: on every path of every function that makes such a call the
result is examined before the function returns as if nothing happened; a failed call makes the function throw, or return
something its successful returns never return, or is handled in the one way the API documents as benign."""
from lib import *
from contract import *
from checks.handles import c_nothrow
import ir
L = "lightstep::"
# name: (least, greatest possible result or None, what success is)
Z, NN, P1, NZ = "zero", "nonneg", "one", "nonzero"
API = {
    "socket": (-1, None, NN), "accept": (-1, None, NN), "dup": (-1, None, NN),
    "fcntl": (-1, None, NN), "setsockopt": (-1, 0, Z), "connect": (-1, 0, Z), "ioctl": (-1, None, NN),
    "readlink": (-1, None, NN), "read": (-1, None, NN), "recv": (-1, None, NN), "write": (-1, None, NN), "writev": (-1, None, NN), "send": (-1, None, NN), "sendmsg": (-1, None, NN), "open": (-1, None, NN),
    "inet_pton": (-1, 1, P1), "pthread_atfork": (0, None, Z),
    "ares_library_init": (0, None, Z), "ares_init_options": (0, None, Z),
    "event_add": (-1, 0, Z), "event_del": (-1, 0, Z), "event_base_loopbreak": (-1, 0, Z), "event_base_once": (-1, 0, Z), "event_base_dispatch": (-1, 1, Z),
    "event_new": (None, None, NZ), "event_base_new": (None, None, NZ),
}
WRAP = {L + "AtFork": "pthread_atfork"}      # kept as a call: its callers differ
F_GETFL = 3
EINPROGRESS, EAGAIN = 115, 11
SHOWS = re.compile(r".*(strerror|operator<<|Logger::|GetErrorCodeMessage)")

def api_of(u, i):
    c = stem(callee_of(i) or "")
    n = WRAP.get(cname(u, i), c)
    if n not in API: return None
    if n == "fcntl" and len(i.ops) > 1 and i.ops[1] == F_GETFL: return None
    return n

def ok(st, n, e):
    k = API[n][2]
    return {Z: lambda: st.eq(e), NN: lambda: st.ge(e), P1: lambda: st.eq(sub(e, const(1))), NZ: lambda: st.ne(e)}[k]()
def bad(st, n, e):
    k = API[n][2]
    return {Z: lambda: st.ne(e), NN: lambda: st.ge(sub(const(-1), e)), P1: lambda: st.ne(sub(e, const(1))), NZ: lambda: st.eq(e)}[k]()

class Fallible:
    """benign(f, site name, st): the failure of this call is handled"""
    def __init__(self, R, u, f, label, benign=None, name=None):
        self.R, self.u, self.f, self.label, self.benign = R, u, f, label, benign or {}
        self.name = name or (lambda i, n: "%s in %s" % (n, f.q))
        self.failret = set(); self.sites = {}
        for i in f.all_instrs():
            if i.op in ("call", "invoke"):
                n = api_of(u, i)
                if n: self.sites[i.id] = (i, n)
    def run(self):
        if not self.sites: return 0
        self.succ = []
        self.pass_(False)
        self.pass_(True)
        self.R.saw("functions"); self.R.saw("call sites", len(self.sites))
        return len(self.sites)
    def inst(self, s): return self.name(*self.sites[s])
    def res(self, s): return atom("res%d" % s)
    def pass_(self, final):
        R, u, f = self.R, self.u, self.f
        ob = lambda rule, s, i, c, m: R.ob(rule, self.inst(s), c, f.loc(i), m) if final else None
        def known(st, s):
            n = self.sites[s][1]; e = self.res(s)
            return True if ok(st, n, e) else False if bad(st, n, e) else None
        def on_call(st, i, c):
            if i.id in self.sites:
                n = self.sites[i.id][1]; e = st.ai.v.lin(i.id)
                if i.id in st.get("done", ()):
                    k = known(st, i.id)
                    if st.checking: ob("noticed", i.id, i, k is not None or n in ("read", "writev"), "the call is repeated although the result of the previous one was not examined")
                lo, hi, _ = API[n]
                st.assign("res%d" % i.id, e)
                if lo is not None: st.poly.add_ge(add(e, const(-lo)))
                if hi is not None: st.poly.add_ge(sub(const(hi), e))
                st.set("done", tuple(sorted(set(st.get("done", ())) | {i.id})))
                st.set("fresh", i.id)
                if n in ("event_new", "event_base_new"): return True
            elif c == "__errno_location":
                if st.get("fresh") is not None: st.set("eloc", (i.id, st.get("fresh")))
                else: st.set("eloc", None)
                return True
            elif c.startswith("llvm."): return None
            else:
                if st.checking and final and not SHOWS.fullmatch(cname(u, i) or c):
                    for s in st.get("done", ()):
                        for o in i.ops:
                            e = st.poly.reduce(st.lin(o)) if not isinstance(o, dict) or "base" not in o else st.poly.reduce(st.lin(o))
                            r = st.poly.reduce(self.res(s))
                            if is_const(r) or is_const(e): continue
                            if any(a in e for a in r if a != ONE):
                                ob("used", s, i, ok(st, self.sites[s][1], self.res(s)), "the result is used as if the call had succeeded; facts: " + facts(st))
                if not pure(c, cname(u, i)): st.set("fresh", None)
                if c in ("strerror", "ares_strerror", "__cxa_allocate_exception", "close"): return True
            return None
        def on_load(st, i):
            el = st.get("eloc")
            if el and i.ops[0] == "%%%d" % el[0] and st.get("fresh") == el[1]:
                st.assign("errno%d" % el[1], st.ai.v.lin(i.id)); st.set("err", tuple(sorted(set(st.get("err", ())) | {el[1]})))
        def on_ret(st, i, r):
            if not st.checking: return
            R.saw("exits")
            allok = True; failed = []
            for s in st.get("done", ()):
                n = self.sites[s][1]; e = self.res(s); k = known(st, s)
                conveyed = r is not None and self.conveys(st, i, s)
                if k is None: allok = False
                if conveyed: continue
                h = self.benign.get(n)
                if h == "examined elsewhere": continue
                ob("noticed", s, i, k is not None, "the function returns without having examined the result; facts: " + facts(st))
                if k is False:
                    allok = False; failed.append(s)
            if not final:
                if failed and r is not None:
                    x = st.poly.reduce(r)
                    self.failret.add(cval(x) if is_const(x) else None)
                if allok: self.succ.append((st.poly.copy(), st.poly.reduce(r) if r is not None else None))
                return
            for s in failed:
                n = self.sites[s][1]
                h = self.benign.get(n)
                if h is not None and h(self, st, s): ob("fails", s, i, True, ""); continue
                good = False
                if r is not None:
                    x = st.poly.reduce(r)
                    good = is_const(x) and all(q is not None and p.entails_ne(sub(q, x)) for p, q in self.succ)
                ob("fails", s, i, good, "the call failed, but the function returns as if it had succeeded; facts: " + facts(st))
        M = Mem(f, init=lambda st: None, on_call=on_call, on_ret=on_ret, on_load=on_load, partition=True, edge_hook=c_nothrow(f))
        M.run()
        for s in self.sites:
            if s not in M.ai.visited: raise Broken("%s: call of %s never reached" % (f.q, self.sites[s][1]))
    def conveys(self, st, i, s):
        """the function's result is the call's, or says whether it succeeded"""
        o = ret_op(i); e = self.res(s); v = st.ai.v
        def same(o): return st.eq(sub(v.op(o), e)) and not is_const(st.poly.reduce(e))
        if same(o): return True
        def cond(o, d=0):
            j = self.f.val(o)
            if j is None or d > 6: return False
            if j.op == "icmp": return (isinstance(j.ops[1], int) or j.ops[1] == "null") and same(j.ops[0])
            if j.op in ("zext", "xor", "freeze", "trunc", "sext"): return same(j.ops[0]) or cond(j.ops[0], d + 1)
            if j.op == "phi":
                hit = [x for _, x in j.d["inc"] if isinstance(x, str) and st.eq(sub(v.lin(j.id), v.op(x))) and not is_const(st.poly.reduce(v.op(x)))]
                return any(cond(x, d + 1) for x in hit)
            return False
        return cond(o)

def pure(c, q):
    """does not change errno (assumed): what only looks at values"""
    return c.startswith(("llvm.", "__clang_call")) or q in (L + "GetLastErrorCode",)

def pending(self, st, s):
    """a connection attempt that goes on in the background"""
    if s not in st.get("err", ()): return False
    e = atom("errno%d" % s)
    return st.eq(sub(e, const(EINPROGRESS))) or st.eq(sub(e, const(EAGAIN)))
def alternative(self, st, s):
    """another attempt of the same kind succeeded"""
    n = self.sites[s][1]
    return any(t != s and self.sites[t][1] == n and ok(st, n, self.res(t)) for t in st.get("done", ()))
def fallback(self, st, s): return True

"""Every access to a fixed-size buffer or table, with everything it is computed from inlined."""
from lib import *
from contract import *
from absint import Slow
from checks.bounds import *
import ir
RULES = {
    "bounds": ("every access to a fixed-size object lies within it", 60),
    "given": ("bytes given with their length are only accessed within it", 10),
}
# functions given a pointer and a length: (pointer parameter, length parameter)
GIVEN = {"Base64::decode": (0, 1), "Base64::encode": (0, 1), "WriteHttpChunkHeader": (0, 1), "WriteReportRequestSpansHeader": (0, 1)}
VIEWS = ["HexToUint64", "HexToUint128", "NormalizedHexToUint8", "NormalizedHexToUint64", "NormalizedHexToUint128", "CloudTracePropagator::ParseCloudTrace"]
AT_LEAST = {"WriteHttpChunkHeader": 10, "WriteReportRequestSpansHeader": 6}      # documented preconditions on the length
N = "lightstep::"
BARRIERS = [N + x for x in ("HexToUint64", "HexToUint128", "Logger::.*", "StatusLineParser::.*", "SatelliteConnection::(OnSocketError|HandleFailure|Reconnect|Connect|FreeSocket|Flush|OnWritable).*", "ChainedStream::.*", "Write", "FragmentArrayInputStream::.*", "Baggage.*", "ConnectionStream::.*")]

def census(P):
    """functions in which a fixed-size object comes into being, a table is indexed or a C function is handed a buffer"""
    out = {}
    for f in P.repo_fns():
        for i in f.all_instrs():
            why = None
            if i.op == "alloca" and not str(i.d.get("nm")).startswith(("ref.tmp", "agg.tmp")) and ("[" in str(i.d.get("aty")) or "array" in str(i.d.get("aty"))): why = "a local array"
            elif i.op == "getelementptr" and i.d.get("var") and isinstance(i.d["base"], str) and i.d["base"].startswith("@"): why = "a table"
            elif i.op in ("call", "invoke"):
                c = callee_of(i) or ""
                if c in CBUF or c in UNBOUNDED: why = c
                elif c == "_Znam": why = "a new array"
                elif cname(P, i).startswith("std::array::"): why = "an array"
            if why: out.setdefault(f.q, set()).add(why)
    return out

class Tried:
    """collects what one function owes"""
    def __init__(self): self.obs = []; self.slow = False
    def ob(self, *a): self.obs.append(a)
    def bad(self): return any(not o[2] for o in self.obs)

def given(f):
    """{pointer argument: its length argument} of views and of documented (pointer, length) pairs"""
    out = {}; A = f.args
    for n in range(len(A) - 1):
        if A[n][0].endswith(".coerce0") and A[n + 1][0] == A[n][0][:-1] + "1" and "string_view" in " ".join(f.pt or []):
            l, p = (n, n + 1) if A[n + 1][1] == "ptr" else (n + 1, n)
            out[p] = l
    k = f.q[len(N):] if f.q.startswith(N) else f.q
    if k in GIVEN:
        s = this_arg(f)
        out[s + GIVEN[k][0]] = s + GIVEN[k][1]
    return out

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    P = ir.program()
    R.assume("integers of 32 bits or more do not wrap around; library functions write no more than the size given to them and keep their documented result ranges")
    want = set(census(P))
    for q in list(GIVEN) + VIEWS:
        if not P.defs(N + q): raise Broken("function %s not found" % q)
    want |= {N + q for q in list(GIVEN) + VIEWS}
    done = {}       # function -> Tried
    todo = sorted(want); level = 0; ok = {}
    origin = {}     # caller -> what the functions it calls could not show on their own
    while todo:
        rx = [re.escape(q).replace("\\ ", ".") for q in todo]
        u = ir.view("bounds%d" % level, rx, BARRIERS, ["opentracing::v2::string_view::.*"])
        if level == 0: alone = {f.name: f for f in ir.view("bounds-alone", rx, [N + ".*"], ["opentracing::v2::string_view::.*"]).roots}
        nxt = set()
        fs = [f for f in u.roots if f.name not in done]
        for f, T in zip(fs, spread(lambda f: attempt(u, f, alone.get(f.name)), fs)):
            done[f.name] = T
            R.saw("functions analysed with all they use inlined")
            if T.slow and f.q in origin:                # too much to decide as part of this caller: the callee owes it
                for o in origin.pop(f.q): emit(R, o)
                continue
            if not T.bad(): emit(R, T); continue
            k = f.q[len(N):]
            c = callers(P, f) if level < 4 and not T.slow and k not in GIVEN else None
            if not c: emit(R, T)            # nobody else it could be the duty of
            else:
                nxt |= c
                for q in c: origin.setdefault(q, []).append(T)
        todo = sorted(nxt); level += 1

def attempt(u, f, alone):
    if len(f.ins) > 400 and alone is not None:        # first without what it calls
        T = Tried()
        if decide(T, Bounds(T, u, alone)) and not T.bad(): return T
    T = Tried(); g = given(f); k = f.q[len(N):] if f.q.startswith(N) else f.q
    def init(st):
        for p, l in g.items():
            st.poly.add_ge(atom("arg%d" % l))
            if k in AT_LEAST: st.poly.add_ge(add(atom("arg%d" % l), const(-AT_LEAST[k])))
    decide(T, Bounds(T, u, f, init=init, regions={"arg%d" % p: atom("arg%d" % l) for p, l in g.items()}))
    return T

def decide(T, B):
    try: B.run(seconds=120); return True
    except Slow:
        T.slow = True; T.ob("bounds", B.f.q, False, "", "it could not be shown in the time set for one function that every access lies within its object")
        return False

def emit(R, T):
    for o in T.obs: R.ob(*o)

def callers(P, f):
    """the functions that call this internal helper directly, if all its uses are such calls; else nothing"""
    g = prog_fn(f.name)
    if g is None: return None
    from checks.handles import only_from
    out = set()
    for h in P.repo_fns():
        for i in h.all_instrs():
            if i.op in ("call", "invoke") and callee_of(i) == g.name: out.add(h.q)
    return out

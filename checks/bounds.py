"""Bounds of memory accesses: every access whose address is some known object plus an offset is shown to lie within the
object. Objects are local variables, global tables, arrays made with new and whatever the rule declares (a pointer and
length argument). Narrow integers are told apart by how they are widened; bit masks bound the results of bit operations;
each loop carries a round counter, so that strides are known."""
import time
from lib import *
from contract import *
from absint import Values, INT_BITS

SIZE = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "ptr": 8, "float": 4, "double": 8}
# C functions: (argument that is the buffer, how many bytes at most, whether it is written, what bounds the result)
CBUF = {
    "readlink": [(1, 2, True)], "read": [(1, 2, True)], "recv": [(1, 2, True)], "recvfrom": [(1, 2, True)],
    "write": [(1, 2, False)], "send": [(1, 2, False)], "gethostname": [(0, 1, True)], "getcwd": [(0, 1, True)],
    "inet_ntop": [(2, 3, True)], "snprintf": [(0, 1, True)], "vsnprintf": [(0, 1, True)], "strftime": [(0, 1, True)],
    "memcpy": [(0, 2, True), (1, 2, False)], "memmove": [(0, 2, True), (1, 2, False)], "memset": [(0, 2, True)],
    "memcmp": [(0, 2, False), (1, 2, False)], "memchr": [(0, 2, False)], "strncpy": [(0, 2, True)],
    "fgets": [(0, 1, True)], "getnameinfo": [(2, 3, True), (4, 5, True)],
    "evbuffer_remove": [(1, 2, True)],
}
READS_N = {"readlink": 2, "read": 2, "recv": 2, "recvfrom": 2, "write": 2, "send": 2, "evbuffer_remove": 2}      # result in -1 .. n
TERMINATES = {"inet_ntop": 0, "snprintf": 0, "vsnprintf": 0, "fgets": 0}       # by index in CBUF: leaves a terminated string
UNBOUNDED = {"strcpy", "strcat", "sprintf", "vsprintf", "gets", "stpcpy"}
STRINGS = {"strlen": [0], "strcmp": [0, 1], "strncmp": [], "strchr": [0], "strrchr": [0], "strtol": [0], "strtoul": [0],
           "strtoull": [0], "strtoll": [0], "atoi": [0], "atol": [0], "strdup": [0], "inet_pton": [1], "getenv": [0]}

class Strict(Values):
    """a narrow integer and its widenings are different quantities"""
    def _compute(self, i):
        if i.op in ("sext", "zext"):
            b = self.bits(i.ops[0])
            if b in (8, 16) or (b == 32 and i.op == "zext"): return self.number(i, (i.op, b, key(self.op(i.ops[0]))))
        if i.op in ("add", "sub", "mul", "shl") and i.ty in ("i8", "i16"):      # wraps: a quantity of its own
            return self.number(i, (i.op, i.ty, key(self.op(i.ops[0])), key(self.op(i.ops[1]))))
        return super()._compute(i)
    def bits(self, o):
        if not (isinstance(o, str) and o.startswith("%")): return 0
        x = self.fn.val(o)
        if x is not None: return INT_BITS.get(x.ty, 0)
        n = self.fn.is_arg(o)
        return INT_BITS.get(self.fn.args[n][1], 0) if n is not None else 0

def masks(f):
    """for every integer value, the bits that may be one (a fixpoint from below)"""
    m = {}
    def full(t): return (1 << INT_BITS.get(t, 64)) - 1
    def of(o):
        if isinstance(o, (bool, int)): return int(o) & ((1 << 128) - 1)
        if isinstance(o, str) and o.startswith("%"):
            n = int(o[1:])
            if n < len(f.args): return full(f.args[n][1])
            return m.get(n, 0)
        return (1 << 128) - 1
    up = lambda x: (1 << x.bit_length()) - 1
    ch = True; rounds = 0
    while ch and rounds < 300:
        ch = False; rounds += 1
        for i in f.all_instrs():
            if i.ty not in INT_BITS: continue
            w = full(i.ty); op = i.op
            if op == "and": r = of(i.ops[0]) & of(i.ops[1])
            elif op in ("or", "xor"): r = of(i.ops[0]) | of(i.ops[1])
            elif op in ("zext", "trunc", "freeze"): r = of(i.ops[0])
            elif op == "sext":
                x = f.val(i.ops[0]); b = INT_BITS.get(x.ty, 0) if x is not None else 0
                r = of(i.ops[0])
                if not b or r >> (b - 1): r = w
            elif op == "lshr" and isinstance(i.ops[1], int): r = of(i.ops[0]) >> i.ops[1]
            elif op == "shl" and isinstance(i.ops[1], int): r = of(i.ops[0]) << i.ops[1]
            elif op == "urem" and isinstance(i.ops[1], int) and i.ops[1] > 0: r = up(min(of(i.ops[0]), i.ops[1] - 1))
            elif op == "udiv" and isinstance(i.ops[1], int) and i.ops[1] > 0: r = up(of(i.ops[0]) // i.ops[1])
            elif op == "add": r = up(of(i.ops[0]) + of(i.ops[1])) if of(i.ops[0]) & of(i.ops[1]) else of(i.ops[0]) | of(i.ops[1])
            elif op == "mul" and (isinstance(i.ops[1], int)): r = up(of(i.ops[0]) * of(i.ops[1]))
            elif op == "select": r = of(i.ops[1]) | of(i.ops[2])
            elif op == "phi":
                r = 0
                for _, x in i.d["inc"]: r |= of(x) if x != "undef" else 0
            elif op == "icmp": r = 1
            elif op == "load":
                t = const_table(f, i)
                r = 0
                if t is None: r = w
                else:
                    for b in t: r |= b
            else: r = w
            r &= w
            r |= m.get(i.id, 0)
            if r != m.get(i.id, 0): m[i.id] = r; ch = True
    if rounds >= 300: return {}
    return m

TABLES = {}
def const_table(f, i):
    """the bytes of the constant table an i8 load reads from"""
    if i.ty != "i8": return None
    g = f.val(i.ops[0])
    o = i.ops[0]
    while g is not None and g.op == "getelementptr": o = g.d["base"]; g = f.val(o)
    if isinstance(o, dict) and "base" in o: o = o["base"]
    return TABLES.get(o[1:]) if isinstance(o, str) and o.startswith("@") else None

class Bounds:
    """regions: extra objects {atom: size expression}; ob(rule, instr, holds, message)"""
    def __init__(self, R, u, f, rule="bounds", init=None, regions=None, on_call=None, skip=None, label=None, barriers=None, maxsteps=60000):
        from checks.bits import table
        self.R = R; self.u = u; self.f = f; self.rule = rule; self.regions = dict(regions or {}); self.label = label or f.q
        self.user_call = on_call; self.user_init = init
        self.n = 0; self.seen = set()
        for n, g in u.globals.items():
            if n not in TABLES and g.get("const"):
                t = table(g)
                if t is not None: TABLES[n] = t
        self.m = Mem(f, init=self.start, on_call=self.call, on_instr=self.instr, edge_hook=self.edge, max_steps=maxsteps)
        self.ai = self.m.ai; self.ai.strict = True
        self.ai.v.__class__ = Strict
        self.v = self.ai.v
        inloop = set().union(*f.loops().values()) if f.loops() else set()
        for i in f.all_instrs():
            if i.op == "icmp" and i.blk in inloop and i.ty == "i1":
                e = sub(self.v.op(i.ops[0]), self.v.op(i.ops[1]))
                if any(isinstance(a, int) and f.ins.get(a) is not None and f.ins[a].op == "phi" for a in e) and len(e) <= 3:
                    for x in (e, scale(e, -1)):
                        for k in (-1, 0, 1): self.ai.templates.append(add(x, const(k)))
        self.mask = masks(f)
        self.alloca = {i.id: i.d["size"] for i in f.all_instrs() if i.op == "alloca" and i.d.get("size")}
        self.isnew = {}
        for i in f.all_instrs():
            c = callee_of(i) if i.op in ("call", "invoke") else None
            if c in ("_Znam", "_Znwm", "malloc"): self.isnew[i.id] = self.newsize(i.ops[0])
    def newsize(self, o):
        """the size asked for, where asking for too much is a request for the largest size (and refused)"""
        i = self.f.val(o)
        if i is not None and i.op == "select" and i.ops[1] in (-1, 2**64 - 1): return self.newsize(i.ops[2])
        if i is not None and i.op == "extractvalue" and i.d["idx"] == [0]:
            j = self.f.val(i.ops[0]); c = callee_of(j) or "" if j is not None else ""
            if ".with.overflow" in c:
                a, b = self.newsize(j.ops[0]), self.newsize(j.ops[1])
                if "uadd" in c: return add(a, b)
                if "umul" in c and is_const(b): return scale(a, cval(b))
                if "umul" in c and is_const(a): return scale(b, cval(a))
        return self.v.op(o)
    def run(self, seconds=None):
        if seconds: self.ai.deadline = time.process_time() + seconds
        self.m.run(); return self
    def unsigned(self, n):
        f = self.f
        if f.args[n][0].endswith(".coerce0"): return True
        k = [j for j, a in enumerate(f.args) if a[2] != 2]
        if f.pt and len(k) == len(f.pt) - 1 and n in k:
            t = f.pt[1 + k.index(n)]
            return "unsigned" in t and "*" not in t and "&" not in t
        return False
    # -- objects ------------------------------------------------------------------
    def region(self, a):
        """size of the object whose address is this quantity"""
        if a in self.regions: return self.regions[a]
        if a in self.alloca: return const(self.alloca[a])
        if a in self.isnew: return self.isnew[a]
        if isinstance(a, str) and a.startswith("@"):
            g = self.u.globals.get(a[1:]) or ir.program().globals.get(a[1:])
            if g is not None and g.get("size") and not g["name"].startswith(("_ZTV", "_ZTI", "_ZTS")): return const(g["size"])
        return None
    def under(self, o, seen=None):
        """the objects an address may point into, as quantities; None in the set: some other"""
        seen = seen if seen is not None else set()
        out = set()
        if isinstance(o, dict):
            if "base" in o: return self.under(o["base"], seen)
            return {None}
        if o in ("null", "undef", "zero"): return set()
        if isinstance(o, str) and o.startswith("@"): return {o}
        if isinstance(o, str) and o.startswith("%"):
            n = int(o[1:])
            if n in seen: return set()
            seen.add(n)
            if n < len(self.f.args): return {"arg%d" % n}
            i = self.f.ins.get(n)
            if i is None: return {None}
            if i.op == "getelementptr": return self.under(i.d["base"], seen)
            if i.op == "phi": return set().union(*[self.under(x, seen) for _, x in i.d["inc"]])
            if i.op == "select": return self.under(i.ops[1], seen) | self.under(i.ops[2], seen)
            if i.op in ("bitcast", "freeze", "inttoptr", "ptrtoint", "addrspacecast"): return self.under(i.ops[0], seen)
            return {n}
        return {None}
    def objects(self, st, o):
        """[(quantity, size)] of the objects this address points into; None if it is none of those declared"""
        e = st.poly.reduce(self.v.op(o)); raw = self.v.op(o)
        for x in (e, raw):
            c = [a for a in x if a != ONE and x[a] == 1 and self.region(a) is not None]
            if len(c) == 1: return c
        b = {x for x in self.under(o)}
        c = [x for x in b if x is not None and self.region(x) is not None]
        if b and len(c) == len(b): return c
        # an address taken from memory, known to be at an object
        for x in b:
            if x is None: continue
            r = st.poly.reduce(atom(x))
            for a in r:
                if a != ONE and r[a] == 1 and self.region(a) is not None: return [a]
        return c or None
    def within(self, st, i, o, n, what, null_ok=False):
        """[o, o+n) lies within the object o points into"""
        obj = self.objects(st, o)
        if obj is None: return None
        e = self.v.op(o)
        if null_ok and st.eq(e): return True
        ok = False; why = ""
        for a in obj:
            size = self.region(a)
            lo = st.ge(sub(e, atom(a))); hi = st.ge(sub(add(atom(a), size), add(e, n)))
            if lo and hi and not st.ge(n): lo = False; why = "a negative length of"
            if lo and hi: ok = True; break
            why = ("before" if not lo else "past") + " " + self.name(a)
        if st.checking:
            self.n += 1
            k = (i.id, what)
            if k not in self.seen or not ok:
                self.seen.add(k)
                given = all(x in self.regions for x in obj)
                self.R.ob(self.given if given else self.rule, "%s: %s of %s" % (self.label, what, " or ".join(sorted({self.oname(x) for x in obj}))), ok, self.f.loc(i),
                          "%s may reach %s; facts: %s" % (what, why, facts(st)))
        return ok
    given = "given"
    def oname(self, a):
        if isinstance(a, str): 
            if a.startswith("@"):
                g = self.u.globals.get(a[1:]) or {}
                return stem(g.get("demangled") or a)
            n = int(a[3:]); return self.f.args[n][0].split(".")[0]
        i = self.f.ins.get(a)
        return (i.d.get("nm") or {"alloca": "a local"}.get(i.op, "a new array")).split(".")[0]
    def name(self, a):
        if isinstance(a, str): return "the start or end of " + a.lstrip("@")[:60]
        i = self.f.ins.get(a)
        return "the bounds of " + ((i.d.get("name") or "an object") if i is not None else "an object")
    # -- hooks -----------------------------------------------------------------------
    def start(self, st):
        for n, a in enumerate(self.f.args):
            if a[1] == "ptr": st.poly.add_ne(atom("arg%d" % n))
            if a[1] in ("i64", "i32", "i16", "i8") and self.unsigned(n): st.poly.add_ge(atom("arg%d" % n))
        if self.user_init: self.user_init(st)
    def edge(self, st, b, s, k):
        if s in self.ai.loops:
            if b in self.ai.loops[s]: st.assign(("it", s), add(atom(("it", s)), const(1)))
            else: st.assign(("it", s), {})
            st.poly.add_ge(atom(("it", s)))
    def instr(self, st, i):
        v = self.v; op = i.op; p = st.poly
        w = INT_BITS.get(i.ty, 0)
        if op in ("and", "or", "xor", "lshr", "shl", "zext", "urem", "udiv", "trunc", "add") and w >= 8 or (op == "load" and i.ty == "i8"):
            e = v.lin(i.id)
            if not is_const(e) and (len(e) == 1 or op not in ("shl", "add", "trunc")):
                mk = self.mask.get(i.id)
                if mk is not None and (mk < (1 << (w - 1)) or op in ("zext",)):
                    p.add_ge(e); p.add_ge(sub(const(mk), e))
        if op in ("zext", "sext"):
            b = self.v.bits(i.ops[0])
            if b in (8, 16) or (b == 32 and op == "zext"):
                e, s = v.lin(i.id), v.op(i.ops[0])
                if op == "sext": p.add_ge(add(e, const(1 << (b - 1)))); p.add_ge(sub(const((1 << (b - 1)) - 1), e))
                if st.ge(s) and (b == 32 or st.ge(sub(const((1 << (b - 1)) - 1), s))): p.add_eq(sub(e, s))
        if (op == "urem" or op == "and") and isinstance(i.ops[1], int):
            c = i.ops[1] if op == "urem" else i.ops[1] + 1
            if c > 1 and (op == "urem" or c & (c - 1) == 0):
                x, r = v.op(i.ops[0]), v.lin(i.id)
                if len([a for a in x if a != ONE]) == 1 and not is_const(r):
                    q = ("quot", c, key(x))
                    p.add_eq(sub(x, add(scale(atom(q), c), r)))
                    if st.ge(x): p.add_ge(atom(q))
        if op == "load":
            n = SIZE.get(i.ty)
            if n: self.within(st, i, i.ops[0], const(n), "a read of %d byte%s" % (n, "s" * (n > 1)))
        elif op == "store":
            n = self.width(i)
            if n: self.within(st, i, i.ops[1], const(n), "a write of %d byte%s" % (n, "s" * (n > 1)))
            if n == 1 or (n and i.ops[0] == 0):
                for a in self.objects(st, i.ops[1]) or []:
                    if i.ops[0] == 0: st.set(("nul", a), True)
    def width(self, i):
        o = i.ops[0]
        if i.d.get("sty") in SIZE: return SIZE[i.d["sty"]]
        x = self.f.val(o)
        if x is not None: return SIZE.get(x.ty)
        n = self.f.is_arg(o)
        if n is not None: return SIZE.get(self.f.args[n][1])
        if i.ty in SIZE: return SIZE[i.ty]
        return None
    def call(self, st, i, c):
        v = self.v
        r = self.user_call(st, i, c) if self.user_call else None
        if r is not None: return r
        n = c.split(".")[1] if c.startswith("llvm.") else c
        if n in ("memcpy", "memmove", "memset") or n in CBUF:
            for k, (b, ln, wr) in enumerate(CBUF[n]):
                if b >= len(i.ops): continue
                o = i.ops[b]; e = v.op(i.ops[ln])
                zero = st.eq(e)
                if not zero: self.within(st, i, o, e, "%s %s" % (n, "writing" if wr else "reading"))
                for a in self.objects(st, o) or []:
                    if wr:
                        st.set(("nul", a), TERMINATES.get(n) == k and st.ge(add(e, const(-1))))
            if n in READS_N:
                x = v.lin(i.id); e = v.op(i.ops[READS_N[n]])
                st.poly.add_ge(add(x, const(1))); st.poly.add_ge(sub(e, x))
            if c.startswith("llvm."): return None
            if n == "snprintf":
                r = self.formatted(st, i)
                st.poly.add_ge(v.lin(i.id) if r is not None else add(v.lin(i.id), const(1)))
                if r is not None: st.poly.add_ge(sub(const(r), v.lin(i.id)))
            self.m.call_effects(st, i)
            return True
        if n in UNBOUNDED and st.checking:
            if self.objects(st, i.ops[0]): self.R.ob(self.rule, self.f.q, False, self.f.loc(i), "%s writes however much there is" % n)
        q = cname(self.u, i)
        if n == "strlen" or (q.startswith("std::char_traits") and q.endswith("::length")):
            o = self.v.op(i.ops[0])
            if len(o) == 1 and isinstance(next(iter(o)), str) and 0 in TABLES.get(next(iter(o))[1:], ()):
                st.poly.add_eq(sub(v.lin(i.id), const(TABLES[next(iter(o))[1:]].index(0))))
        self.library(st, i, c, q)
        self.views(st, i, c, q)
        return None
    def formatted(self, st, i):
        """the most characters the format and the ranges of its integer arguments allow"""
        o = i.ops[2]; o = o["base"] if isinstance(o, dict) and "base" in o and o["off"] == 0 else o
        t = TABLES.get(o[1:]) if isinstance(o, str) and o.startswith("@") else None
        if t is None or 0 not in t: return None
        t = t[:t.index(0)].decode("latin1"); k = 3; n = 0; j = 0
        for m in re.finditer(r"%(%|([-+ #0]*)([0-9]*)(hh|h|ll|l|z|j|t|)([a-zA-Z]))", t):
            n += m.start() - j; j = m.end()
            if m.group(1) == "%": n += 1; continue
            conv = m.group(5); bits = {"hh": 8, "h": 16, "": 32}.get(m.group(4), 64)
            if conv == "c": w = 1
            elif conv in "diux": 
                base = 16 if conv == "x" else 10
                hi = (1 << bits) - 1 if conv in "ux" else 1 << (bits - 1)
                lo = 0 if conv in "ux" else -(1 << (bits - 1))
                e = self.v.op(i.ops[k])
                for d in range(1, 21):
                    if st.ge(e) and st.ge(sub(const(base ** d - 1), e)): hi = min(hi, base ** d - 1); lo = 0; break
                digits = lambda x: len("%x" % x if base == 16 else "%d" % x)
                w = max(digits(hi), digits(abs(lo)) + 1 if lo < 0 else 0) + sum(x in "+ " for x in m.group(2)) + (2 if "#" in m.group(2) else 0)
            else: return None
            n += max(w, int(m.group(3) or 0)); k += 1
        rest = t[j:]
        if "%" in rest: return None
        return n + len(rest)
    def views(self, st, i, c, q):
        """string views passed on cover bytes of the object only"""
        pt = " ".join(str(x) for fs in (self.u.fns, ir.program().fns) if fs.get(c) is not None for x in (fs[c].pt or []))
        if "string_view" not in pt and not (c.startswith("vcall$") and "opentracing" in c): return
        for k in range(len(i.ops) - 1):
            if not isinstance(i.ops[k + 1], (str, dict)) or not self.isint(i.ops[k]) or self.isint(i.ops[k + 1]): continue
            e = self.v.op(i.ops[k])
            if not st.eq(e): self.within(st, i, i.ops[k + 1], e, "a view passed to " + q.split("::")[-1])
    def isint(self, o):
        if isinstance(o, (bool, int)): return True
        if not (isinstance(o, str) and o.startswith("%")): return False
        x = self.f.val(o)
        if x is not None: return x.ty in INT_BITS
        n = self.f.is_arg(o)
        return n is not None and self.f.args[n][1] in INT_BITS
    def library(self, st, i, c, q):
        """text and byte ranges handed to the library"""
        P = []
        if c in STRINGS: P = [("z", k) for k in STRINGS[c]]
        elif q.startswith("std::") and re.search(r"PKc", c):
            sig = re.sub(r"^.*?(C[12]|assign|append|insert|compare|write|find|rfind|lsI\w*?)E", "", c)
            ptrs = [k for k, o in enumerate(i.ops[:-1] if i.op == "call" else i.ops) if True]
            m = re.search(r"EPKc(m|l)", c) or re.search(r"EPKc(RK|$|)", c)
            k = self.cstr(i, c)
            if k is not None:
                nx = i.ops[k + 1] if k + 1 < len(i.ops) else None
                if re.search(r"PKc[ml]", c) and nx is not None: P = [("n", k, k + 1)]
                elif re.search(r"PKcS\w*_|PKcPKc", c): P = [("r", k, k + 1)]
                else: P = [("z", k)]
        for x in P:
            o = i.ops[x[1]]
            if x[0] == "n":
                e = self.v.op(i.ops[x[2]])
                if not st.eq(e): self.within(st, i, o, e, "reading bytes passed to " + q.split("::")[-1])
            else:
                for a in self.objects(st, o) or []:
                    if not isinstance(a, (int, str)): continue
                    if isinstance(a, str) and a.startswith("@"):
                        t = TABLES.get(a[1:])
                        if t is None or 0 in t: continue
                    if a in self.regions and not isinstance(a, int): continue
                    if st.checking:
                        self.n += 1
                        self.R.ob(self.rule, self.f.q, bool(st.get(("nul", a))), self.f.loc(i), "text in a fixed-size buffer may not be terminated where it is used as a string")
    def cstr(self, i, c):
        """which operand is the const char*"""
        for k, o in enumerate(i.ops):
            if k == 0 and re.match(r"_ZN", c): continue
            if isinstance(o, str) and o.startswith("%"):
                x = self.f.val(o)
                if (x is not None and x.ty == "ptr"): return k
            elif isinstance(o, dict) or (isinstance(o, str) and o.startswith("@")): return k
        return None

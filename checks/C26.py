"""Every option of the configuration message reaches the tracer option of its name, and no other; absent ones leave the default; invalid ones are refused."""
from lib import *
from absint import Values
from checks.paths import Paths
import ir
RULES = {
    "applied": ("when an option is given, the tracer option of the same name is set from it on every way to a successful end", 14),
    "own": ("a tracer option is set from the option of its name and nothing else", 14),
    "default": ("an option that is not given leaves the tracer option's default", 6),
    "whole": ("ports are between 1 and 65535, so that the conversion loses nothing", 1),
    "refused": ("options are only given back when the configuration could be read and nothing failed", 1),
    "modes": ("every name of a propagation mode stands for the mode of that name", 5),
}
N = "lightstep::"; T = N + "tracer_configuration::TracerConfiguration"; E = N + "tracer_configuration::Endpoint"; O = N + "LightStepTracerOptions"
# tracer options whose default is not what an absent option reads as
DEFAULTED = {"collector_host", "collector_port", "max_buffered_spans", "reporting_period", "report_timeout", "satellite_endpoints"}
MODES = {"lightstep": 1, "b3": 2, "envoy": 3, "trace_context": 4, "cloud_trace": 5}

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    P = ir.program(); P.need("tracer/json_options.cpp")
    R.assume("protobuf's accessors and the standard containers do what they say")
    u = ir.view("options", [N + "MakeTracerOptions"], [N + "tracer_configuration::.*", "google::.*", "std::[^n].*", N + "(LightStepTracerOptions|DynamicConfigurationValue).*", "opentracing::.*"])
    f = u.roots[0] if len(u.roots) == 1 else None
    if f is None: raise Broken("MakeTracerOptions not found")
    names = declared()
    if len(names) < 10: raise Broken("options of the configuration message not found")
    offs = {e["n"]: e["off"] for e in members(O)}
    v = Values(f)
    nm = lambda i: strip_templates(cname(u, i) or "")
    opts = {i.id for i in f.all_instrs() if i.op == "alloca" and (i.d.get("aty") or i.d.get("ty") or "").find("LightStepTracerOptions") >= 0} or \
        {f.val(i.ops[0]).id for i in f.all_instrs() if i.op in ("call", "invoke") and nm(i) == O + "::LightStepTracerOptions" and f.val(i.ops[0]) is not None}
    if len(opts) != 1: raise Broken("the options being filled in are not found")
    opt = opts.pop()
    def root(o):
        """(object, offset) an address lies in"""
        e = v.op(o); a = [x for x in e if x != ONE]
        if len(a) != 1 or e[a[0]] != 1: return None, None
        return a[0], int(cval({ONE: e.get(ONE, 0)}))
    def slot(o):
        r, off = root(o)
        if r != opt: return None
        c = [(b, n) for n, b in offs.items() if b <= off]
        return max(c)[1] if c else None
    # what every value and local object is made from
    src = {}; mem = {}
    def of(o):
        if isinstance(o, dict): return of(o.get("base")) if "base" in o else set()
        if not (isinstance(o, str) and o.startswith("%")): return set()
        i = f.val(o)
        if i is None: return set()
        r, _ = root(o)
        return set(src.get(i.id, ())) | (set(mem.get(r, ())) if isinstance(r, int) and r != opt and f.ins.get(r) is not None and f.ins[r].op == "alloca" else set())
    sinks = []
    ch = True
    while ch:
        ch = False; sinks = []
        def add(d, k, x):
            nonlocal ch
            if x and not x <= d.get(k, set()): d[k] = set(d.get(k, ())) | x; ch = True
        for i in f.all_instrs():
            if i.op in ("call", "invoke"):
                n = nm(i); m = re.match("^" + T + r"::(\w+)$", n)
                if m and m.group(1) in names: add(src, i.id, {m.group(1)}); continue
                if (callee_of(i) or "").startswith("llvm.lifetime") or n.split("::")[-1].startswith("~"): continue
                args = list(i.ops); x = set().union(*[of(o) for o in args]) if args else set()
                if n == O + "::" + O.split("::")[-1] or "expected" in n: continue
                k = next((j for j, o in enumerate(args) if slot(o) is not None), None)
                if k is not None:
                    y = set().union(*[of(o) for j, o in enumerate(args) if j != k]) if len(args) > 1 else set()
                    if "reserve" not in n and y: sinks.append((i, slot(args[k]), y))
                    continue
                if not x: continue
                add(src, i.id, x)
                if args:
                    for o in args[:1] if not n.startswith("google::protobuf::util") else []:
                        r, _ = root(o)
                        if isinstance(r, int) and f.ins.get(r) is not None and f.ins[r].op == "alloca": add(mem, r, x)
            elif i.op == "store":
                x = of(i.ops[0]) if not (f.val(i.ops[0]) is not None and f.val(i.ops[0]).op == "alloca") else set()
                s = slot(i.ops[1])
                if s is not None:
                    if x: sinks.append((i, s, x))
                else:
                    r, _ = root(i.ops[1])
                    if isinstance(r, int): add(mem, r, x)
            elif i.op == "load":
                r, _ = root(i.ops[0])
                add(src, i.id, of(i.ops[0]) | (set(mem.get(r, ())) if isinstance(r, int) else set()))
            elif i.op == "phi":
                x = set().union(*[of(o) for _, o in i.d["inc"]])
                if all(re.match(r"^-?\d+$", str(o)) for _, o in i.d["inc"]):          # chosen by what was compared
                    for p, _ in i.d["inc"]:
                        if f.blocks[p][-1].op in ("br", "switch") and f.blocks[p][-1].ops: x |= of(f.blocks[p][-1].ops[0])
                add(src, i.id, x)
            elif i.op not in ("br", "ret", "alloca", "switch"): add(src, i.id, set().union(*[of(o) for o in i.ops if not isinstance(o, dict)]) if i.ops else set())
    R.saw("settings of tracer options", len(sinks))
    made = [i for i in f.all_instrs() if i.op in ("call", "invoke") and "expected" in nm(i) and any(root(o)[0] == opt for o in i.ops)]
    if not made: raise Broken("where the options are given back is not found")
    loc = lambda i: f.loc(i)
    conds = lambda x: {i.id for i in f.all_instrs() if src.get(i.id) == {x}}
    for x in names:
        if x not in offs: R.ob("applied", x, False, "", "there is no tracer option of this name"); continue
        mine = [(i, y) for i, s, y in sinks if s == x]
        ids = {i.id for i, y in mine}
        for i, y in mine: R.ob("own", x, x in y and y <= {x}, loc(i), "options.%s is set from %s" % (x, ", ".join(sorted(y))))
        for i, s, y in sinks:
            if s != x and x in y: R.ob("own", s, False, loc(i), "options.%s is set from %s" % (s, x))
        if not mine:
            R.ob("applied", x, False, "", "the option is never applied"); continue
        def says(k):
            """the truth of value k that means the option is given"""
            if not isinstance(k, int) or src.get(k) != {x}: return None
            i = f.ins[k]
            if i.op in ("call", "invoke"): return nm(i).split("::")[-1] != "empty"
            if i.op == "load": return True
            if i.op == "icmp" and re.match(r"^-?\d+$", str(i.ops[1])):
                return {("ugt", "0"): True, ("sgt", "0"): True, ("ne", "0"): True, ("uge", "1"): True, ("sge", "1"): True, ("eq", "0"): False, ("ult", "1"): False, ("slt", "1"): False, ("ule", "0"): False, ("sle", "0"): False}.get((i.d["pred"], str(i.ops[1])))
            return None
        def absent(s): return any(says(k) is not None and t != says(k) for k, t in s.items())
        def given(s): return any(says(k) is not None and t == says(k) for k, t in s.items())
        def step(s, i):
            if i.id in ids: s["done"] = True
            if absent(s): s["absent"] = True
            if given(s): s["given"] = True
        p = Paths(f, step, {}, keep=conds(x))
        def visit(s, i):
            if i in made and "unwinding" not in s:
                R.ob("applied", x, bool(s.get("done") or s.get("absent") or absent(s)), loc(i), "the option may be given and not be applied")
            if i.id in ids and x in DEFAULTED:
                R.ob("default", x, bool(given(s) or s.get("given")), loc(i), "the default is replaced although the option is not given")
        p.each(visit)
    refused(R, f, u, nm, made, root, src)
    ports(R, f, u, nm)
    modes(R, P, f, u, nm)

def declared():
    """the options the configuration message declares"""
    t = re.sub(r"//[^\n]*", "", open(ir.REPO + "/lightstep-tracer-configuration/tracer_configuration.proto").read())
    m = re.search(r"message TracerConfiguration\s*\{(.*?)\n\}", t, re.S)
    return sorted(re.findall(r"(\w+)\s*=\s*\d+\s*;", m.group(1))) if m else []

def refused(R, f, u, nm, made, root, src):
    reads = {i.id for i in f.all_instrs() if i.op in ("call", "invoke") and nm(i) == "google::protobuf::util::JsonStringToMessage"}
    oks = {i.id for i in f.all_instrs() if i.op in ("call", "invoke") and nm(i).endswith("::Status::ok")}
    if not reads or not oks: R.ob("refused", "MakeTracerOptions", False, "", "whether the configuration could be read is not looked at"); return
    def step(s, i):
        if i.id in reads: s["read"] = True
        for k in oks:
            if k in s: s["ok"] = s[k]
    p = Paths(f, step, {}, keep=oks)
    def visit(s, i):
        if i in made: R.ob("refused", "MakeTracerOptions", bool(s.get("read")) and (s.get("ok") is True or any(s.get(k) is True for k in oks)) and "unwinding" not in s, f.loc(i), "options are given back although the configuration could not be read or is not valid")
    p.each(visit)

def ports(R, f, u, nm):
    gets = {i.id for i in f.all_instrs() if i.op in ("call", "invoke") and nm(i) == E + "::port"}
    puts = [i for i in f.all_instrs() if i.op in ("call", "invoke") and re.search(r"vector::(emplace_back|push_back|emplace)$", nm(i)) and len(i.ops) >= 2]
    cut = [i for i in f.all_instrs() if i.op == "trunc" and i.ty == "i16"]
    if not gets or not cut: raise Broken("conversion of ports not found")
    v = Values(f)
    def is_port(o):
        i = f.val(o)
        while i is not None and i.op in ("zext", "sext", "freeze"): i = f.val(i.ops[0])
        return i is not None and i.id in gets
    lims = {}
    for i in f.all_instrs():
        if i.op != "icmp" or i.d["pred"] not in ("ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"): continue
        for a, b, flip in ((0, 1, False), (1, 0, True)):
            if is_port(i.ops[a]):
                c = v.op(i.ops[b]); n = cval(c) if all(k == ONE for k in c) else None
                if n is None: 
                    j = f.val(i.ops[b])
                    while j is not None and j.op in ("zext", "sext"): j = f.val(j.ops[0])
                    n = 65535 if j is not None and j.op == "call" and "numeric_limits" in nm(j) and "Itt" not in nm(j) else None
                if n is None: continue
                pr = i.d["pred"][1:]
                if flip: pr = {"gt": "lt", "ge": "le", "lt": "gt", "le": "ge"}[pr]
                # (truth of the comparison, what it then says: at most, at least)
                lims[i.id] = {"gt": (False, "max", n), "ge": (False, "max", n - 1), "lt": (True, "max", n - 1), "le": (True, "max", n)}[pr], {"gt": (True, "min", n + 1), "ge": (True, "min", n), "lt": (False, "min", n), "le": (False, "min", n + 1)}[pr]
    eqs = {i.id for i in f.all_instrs() if i.op == "icmp" and any(is_port(o) for o in i.ops)}
    p = Paths(f, None, {}, keep=gets | set(lims) | eqs)
    def visit(s, i):
        if i not in cut or not is_port(i.ops[0]): return
        top = any(s.get(k) == x[0][0] and x[0][2] <= 65535 for k, x in lims.items())
        low = any(s.get(k) is True for k in gets) or any(s.get(k) == x[1][0] and x[1][2] >= 1 for k, x in lims.items())
        R.ob("whole", "ports of satellites", bool(top and low), f.loc(i), "a port %s may be taken" % ("beyond 65535" if not top else "of 0"))
    p.each(visit)

def modes(R, P, f, u, nm):
    """comparisons with a name that lead straight to a constant"""
    found = {}
    def text(o):
        for x in re.findall(r"@[\w.$]+", str(o)):
            g = u.globals.get(x[1:]) if hasattr(u, "globals") else None
            if g is None: continue
            s = g.get("init")
            if isinstance(s, dict) and "strhex" in s: return bytes.fromhex(s["strhex"]).decode("latin1").rstrip("\0")
            if isinstance(s, str): return s.rstrip("\0")
        return None
    eq = {}
    for i in f.all_instrs():
        if i.op in ("call", "invoke") and re.search(r"operator==$", nm(i)):
            t = next((x for x in (text(o) for o in i.ops) if x), None)
            if t: eq[i.id] = (t, i)
    for i in f.all_instrs():
        if i.op != "phi" or i.ty != "i32": continue
        for p, o in i.d["inc"]:
            b = f.blocks[p][-1]
            if b.op == "br" and b.ops and f.val(b.ops[0]) is not None and f.val(b.ops[0]).id in eq and re.match(r"^\d+$", str(o)) and f.succ[p][0] == i.blk:
                t, j = eq[f.val(b.ops[0]).id]; found[t] = (int(o), j)
    for t, (n, j) in found.items(): R.ob("modes", t, MODES.get(t) == n, f.loc(j), "the name stands for another mode (%d)" % n)

"""What is made from the access token is followed through the whole program: it goes into reports and headers, never into logs, messages of errors or tags."""
from lib import *
from checks.effects import *
import ir
RULES = {
    "unlogged": ("nothing made from the access token, nor a message or header holding it, is handed to a logger, printed, or made part of an exception", 1),
    "untagged": ("nothing made from the access token is stored as a tag, baggage or another option", 1),
    "header": ("the access token given in the options is put into reports", 2),
}
N = "lightstep::"; OPTS = "lightstep::LightStepTracerOptions"
SINK = re.compile(r"^lightstep::Logger::|^(f|v|vf|d|vd)?printf$|^(f)?put(s|c|char)$|^perror$|^(v)?syslog$|^fwrite$|^std::(runtime_error|logic_error|invalid_argument|out_of_range|length_error|domain_error|range_error|overflow_error|system_error|exception)::\w+$|^opentracing::(v\d+::)?Span::(SetTag|Log|SetBaggageItem)$")
TAG = re.compile(r"^lightstep::(ToKeyValue|WriteTag|WriteLog|WriteKeyValue\w*|ToLog)$|^lightstep::collector::(Reporter|KeyValue|Log|SpanContext|Span|InternalMetrics)::(set_|mutable_|add_)\w+$|(^|::)(SetTag|SetBaggageItem|SetOperationName)$")
STREAMS = {"_ZSt4cerr", "_ZSt4cout", "_ZSt4clog", "stderr", "stdout"}
OUTWARD = re.compile(r"Serialize|::Write|::Append|::CopyTo|operator>>|[Ss]wap|::Print|::copy$|MessageToJsonString|::str$|CopyFrom|MergeFrom")
NOFLOW = re.compile(r"::~|^std::(vector|__cxx11::basic_string|basic_string)::(size|length|empty|capacity|compare|find\w*|clear|reserve)$|operator(==|!=|<|>)$|^__cxa_|::max_size$|ByteSizeLong$|::size$|::empty$|::clear$|::Clear$|has_\w+$|^operator (new|delete)|^_Z(n|d)")

class Taint:
    def __init__(self, P):
        self.P = P; self.v = set(); self.fields = set(); self.rets = set(); self.why = {}
        self.fns = [f for f in P.fns.values() if not f.is_decl and not re.match(r"lightstep::(collector|tracer_configuration)::", f.q) and ((f.file or "").startswith(ir.REPO + "/") or f.q.startswith(N) or "make_shared" in f.q)]
        self.byname = {f.name: f for f in self.fns}
        self.uses = {}; self.callers = {}; self.calls = {}; self.links = {}
        for f in self.fns:
            if "verif" in f.q: continue
            for i in f.all_instrs():
                if i.op == "getelementptr":
                    for k in self.steps(i): self.uses.setdefault(k, set()).add(f.name)
            self.calls[f.name] = list(calls_of(f))
            for i, c in self.calls[f.name]:
                for g in self.to(c): self.callers.setdefault(g, set()).add(f.name)
        self.hits = []
    def to(self, c):
        if c is None: return []
        if c.startswith("vcall$"): return [through(self.P, g).name for g in targets(c)]
        return [c]
    def steps(self, i):
        return [(re.sub(r"^(class|struct)\.", "", p[0]), p[1]) for p in i.d.get("path") or []]
    def root(self, f, o, d=0):
        """the object a pointer leads into: (kind, ...) of a local object, an argument, a member, or the result of a call"""
        if isinstance(o, dict): return None
        a = f.is_arg(o)
        if a is not None: return ("a", f.name, a)
        i = f.val(o) if isinstance(o, str) and o.startswith("%") else None
        if i is None or d > 20: return None
        if i.op == "alloca": return ("o", f.name, i.id)
        if i.op == "getelementptr":
            s = [k for k in self.steps(i) if k[0].startswith(N)]
            if s: return ("f",) + s[-1]
            return self.root(f, i.d["base"], d + 1)
        if i.op in ("bitcast", "addrspacecast", "freeze"): return self.root(f, i.ops[0], d + 1)
        if i.op == "load":
            r = self.root(f, i.ops[0], d + 1)
            return r
        if i.op in ("call", "invoke") and i.ops and i.ty == "ptr": return self.root(f, i.ops[0], d + 1)
        return None
    def is_t(self, f, o):
        if isinstance(o, dict): return any(self.is_t(f, x) for x in o.values() if isinstance(x, (str, dict)))
        a = f.is_arg(o)
        if a is not None: return ("a", f.name, a) in self.v
        i = f.val(o) if isinstance(o, str) and o.startswith("%") else None
        if i is None: return False
        if ("v", f.name, i.id) in self.v or ("o", f.name, i.id) in self.v: return True
        if i.op == "getelementptr": return any(k in self.fields for k in self.steps(i)) or not [k for k in self.steps(i) if k[0].startswith(N)] and self.is_t(f, i.d["base"])
        return False
    def mark(self, k, f):
        if k is None: return
        if k[0] == "f":
            k2 = k[1:]
            if k2 in self.fields: return
            self.fields.add(k2)
            for n in self.uses.get(k2, ()): self.push(n)
            return
        if k in self.v: return
        self.v.add(k); self.push(k[1])
        for l in self.links.get(k, ()): self.mark(l, f)
        if k[0] == "a":
            for n in self.callers.get(k[1], ()): self.push(n)
    def push(self, n):
        if n in self.byname and n not in self.inq: self.inq.add(n); self.work.append(n)
    def run(self, sources):
        self.work = []; self.inq = set()
        for f in self.fns: self.push(f.name)
        self.fields |= set(sources)
        while self.work:
            n = self.work.pop(); self.inq.discard(n); self.visit(self.byname[n])
    def visit(self, f):
        ch = True
        while ch:
            before = (len(self.v), len(self.fields), len(self.rets))
            for i in f.all_instrs():
                if i.op in ("call", "invoke"): self.call(f, i)
                elif i.op == "store":
                    if self.is_t(f, i.ops[0]): self.mark(self.root(f, i.ops[1]), f)
                elif i.op == "load":
                    if self.is_t(f, i.ops[0]): self.mark(("v", f.name, i.id), f)
                elif i.op == "ret":
                    if i.ops and self.is_t(f, i.ops[0]) and f.name not in self.rets:
                        self.rets.add(f.name)
                        for n in self.callers.get(f.name, ()): self.push(n)
                elif i.op == "phi":
                    if any(self.is_t(f, o) for _, o in i.d["inc"]): self.mark(("v", f.name, i.id), f)
                elif i.op in ("bitcast", "select", "insertvalue", "extractvalue", "freeze", "ptrtoint", "inttoptr", "add", "zext", "sext", "trunc"):
                    if any(self.is_t(f, o) for o in i.ops): self.mark(("v", f.name, i.id), f)
            ch = before != (len(self.v), len(self.fields), len(self.rets))
    def call(self, f, i):
        c = callee_of(i)
        for j, cc in self.calls[f.name]:
            if j is i: c = cc; break
        name = strip_templates(vcall_name(c) if c and c.startswith("vcall$") else prog_fn(c).q if c and prog_fn(c) is not None and prog_fn(c).q else c or "")
        ts = [k for k, o in enumerate(i.ops) if self.is_t(f, o)]
        # objects wrapped around others, streams for the most part
        if re.search(r"Stream::\w+Stream$", name) and len(i.ops) >= 2:
            a, b = self.root(f, i.ops[0]), self.root(f, i.ops[1])
            if a and b and a[0] != "f" and b[0] != "f": self.links.setdefault(a, set()).add(b)
            if a in self.v: self.mark(b, f)
        own = [g for g in self.to(c) if g in self.byname]
        for g in own:
            if g in self.rets: self.mark(("v", f.name, i.id), f)
            for k, o in enumerate(i.ops):
                if k < len(self.byname[g].args):
                    if k in ts and self.byname[g].args[k][1] == "ptr" or k in ts: self.mark(("a", g, k), f)
                    if ("a", g, k) in self.v and k not in ts and self.outs(g, k):
                        self.mark(self.root(f, o), f)
        if not ts: return
        if SINK.search(name) or any(x in str(i.ops[0]) for x in STREAMS) and re.search(r"operator<<|^f(printf|puts|write)|::write$|::put$", name):
            self.hits.append(("unlogged", f, i, name)); return
        if TAG.search(name) and not name.endswith("::mutable_auth") and any(k for k in ts if k > 0): self.hits.append(("untagged", f, i, name)); return
        if own or NOFLOW.search(name) or (c or "").startswith(("llvm.lifetime", "llvm.dbg", "llvm.type", "llvm.assume")): return
        self.mark(("v", f.name, i.id), f) if i.ty != "void" else None
        if i.ops and any(k > 0 for k in ts): self.mark(self.root(f, i.ops[0]), f)
        if 0 in ts and OUTWARD.search(name):
            for o in i.ops[1:]: self.mark(self.root(f, o), f)
    def outs(self, g, k):
        """what is put into the k-th argument shows at the caller's"""
        t = str(param(self.byname[g], k) or "")
        return not re.match(r"^[&*]const ", t)

def check(R):
    for k, (t, n) in RULES.items(): R.rule(k, t, n)
    P = ir.program(); P.need()
    R.assume("the user's transporter and the channel reports are sent over are outside the program")
    T = Taint(P)
    rec = P.record(OPTS)
    els = [e for e in rec["els"] if e["k"] == "DW_TAG_member" and not e.get("static")]
    idx = [k for k, e in enumerate(els) if e["n"] == "access_token"]
    if not idx: raise Broken("the access token is not found among the options")
    off = els[idx[0]]["off"]
    src = {s for f in T.fns for i in f.all_instrs() if i.op == "getelementptr" for p in i.d.get("path") or [] for s in [(re.sub(r"^(class|struct)\.", "", p[0]), p[1])] if s[0] == OPTS and p[2] == off}
    if not src: raise Broken("the access token is never used")
    others = {(re.sub(r"^(class|struct)\.", "", p[0]), p[1]): p[2] for f in T.fns for i in f.all_instrs() if i.op == "getelementptr" for p in i.d.get("path") or [] if re.sub(r"^(class|struct)\.", "", p[0]) == OPTS and p[2] != off}
    T.run(src)
    R.saw("functions analysed", len(T.fns)); R.saw("values, objects and members holding the token", len(T.v) + len(T.fields))
    seen = set()
    for rule, f, i, name in T.hits:
        if (rule, f.q, name) in seen: continue
        seen.add((rule, f.q, name))
        R.ob(rule, "%s -> %s" % (f.q, name), False, f.loc(i), "something made from the access token is handed to %s" % name)
    for k, o in others.items():
        if k in T.fields:
            n = next((e["n"] for e in els if e["off"] == o), "+%d" % o)
            R.ob("untagged", "options." + n, False, "", "something made from the access token is stored as another option")
    R.ob("unlogged", "all calls", True); R.ob("untagged", "all calls", True)
    puts = [(f, i) for f in T.fns for i, c in T.calls.get(f.name, []) if c and strip_templates(prog_fn(c).q if prog_fn(c) else c) == N + "collector::Auth::set_access_token"]
    for f, i in puts:
        R.ob("header", f.q, any(T.is_t(f, o) for o in i.ops[1:]), f.loc(i), "what is put into reports as the access token is not the one of the options")
    if not puts: R.ob("header", "reports", False, "", "no report carries the access token")

"""Runs one property's rules and reports: obligations, evidence, known findings, exit code."""
import json, os, sys, time, traceback, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import Broken, VERIF

class Report:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.obs = []           # (rule, instance, ok, loc, msg)
        self.analysed = {}      # what was looked at
        self.assumptions = []
        self.rules = {}
        self.fp_total = 0
    def rule(self, rid, text, minimum=1):
        self.rules[rid] = {"text": text, "minimum": minimum}
    def ob(self, rule, instance, ok, loc="", msg=""):
        if rule is None: return ok       # a contract decided here that belongs to another property
        if rule not in self.rules: raise Broken("undeclared rule " + rule)
        self.obs.append((rule, instance, bool(ok), loc, msg))
        return ok
    def saw(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n
    def assume(self, t):
        if t not in self.assumptions: self.assumptions.append(t)

def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"): out.append(json.loads(l))
    return out

def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    R = Report(pid, tier)
    try:
        mod = importlib.import_module("checks." + pid)
        mod.check(R)
        for rid, r in R.rules.items():
            n = sum(1 for o in R.obs if o[0] == rid)
            if n < r["minimum"] and all(o[2] for o in R.obs):
                raise Broken("rule %s of %s matched %d instances, expected at least %d: its anchor has vanished" % (rid, pid, n, r["minimum"]))
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    # one verdict per (rule, instance)
    groups = {}
    for rule, inst, ok, loc, msg in R.obs:
        g = groups.setdefault((rule, inst), [True, []])
        if not ok:
            g[0] = False
            if (loc, msg) not in g[1]: g[1].append((loc, msg))
    bad = [(k, v) for k, v in groups.items() if not v[0]]
    known = [f for f in known_findings() if f.get("property") == pid and f.get("status") == "known"]
    new, old = [], []
    for k, v in bad:
        hit = [f for f in known if f["rule"] == k[0] and f["instance"] == k[1]]
        (old if hit else new).append((k, v, hit))
    EVD = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(EVD, exist_ok=True)
    rep = os.path.join("evidence", pid + ".violations.txt")
    with open(os.path.join(EVD, pid + ".violations.txt"), "w") as f:
        for (rule, inst), v, _ in new:
            f.write("rule %s: %s\n  instance: %s\n" % (rule, R.rules[rule]["text"], inst))
            for loc, msg in v[1]: f.write("  at %s: %s\n" % (loc, msg))
    disch = sum(1 for v in groups.values() if v[0])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": "Static analysis of /repo's current sources (compiled to LLVM IR, nothing executed). " + (mod.__doc__ or "").strip(),
            "analysed": R.analysed,
            "rules": {rid: {"rule": r["text"], "instances": sum(1 for k in groups if k[0] == rid),
                            "checks": sum(1 for o in R.obs if o[0] == rid)} for rid, r in R.rules.items()},
            "obligations": len(groups), "discharged": disch,
            "samples": ["%s: %s" % k for k in list(groups)[:40]],
        },
        "assumptions": R.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": ["%s: %s (%s)" % (k[0], k[1], "; ".join("%s %s" % x for x in v[1])) for k, v, _ in new],
    }
    json.dump(ev, open(os.path.join(EVD, pid + ".json"), "w"), indent=1)
    for (rule, inst), v, hit in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["what"]))
    print("%s: %d rule instances, %d discharged, %d known findings, %d violations (%.1fs)" % (pid, len(groups), disch, len(old), len(new), time.time() - t0))
    for (rule, inst), v, _ in new:
        for loc, msg in v[1]:
            print("  %s [%s] %s: %s" % (loc, rule, inst, msg))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join(VERIF, rep)))
        return 1
    return 0

if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    rc = main(sys.argv[1], tier)
    sys.stdout.flush()
    os._exit(rc)

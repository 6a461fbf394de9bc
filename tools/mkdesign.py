"""Writes DESIGN.md: design_head.md, one section per property (from the checks themselves), the planted bugs, design_tail.md."""
import ast, glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from design_notes import N
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## The properties, one by one", ""]
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
man = json.load(open(V + "/MANIFEST.json"))
for c in man["checks"]:
    p = props[c["property"]]; t = open(V + "/checks/%s.py" % p["id"]).read()
    doc = ast.get_docstring(ast.parse(t)) or ""
    rules = {}
    m = re.search(r'^RULES\s*=\s*\{.*?^\}', t, re.S | re.M)
    if m: rules = {k: v[0] if isinstance(v, tuple) else v for k, v in ast.literal_eval(m.group(0).split("=", 1)[1].strip()).items()}
    else: rules = dict(re.findall(r'R\.rule\("([^"]+)", "([^"]+)"', t))
    out += ["### %s %s" % (p["id"], p["title"]), "", " ".join(doc.split()), ""]
    out += ["- `%s`: %s" % kv for kv in rules.items()]
    out += ["", N.get(p["id"], ""), "", "Why tests cannot: " + p["why_tests_cant"], ""]
out += ["### Not applicable", ""] + ["- %s %s: %s" % (n["property"], props[n["property"]]["title"], n["reason"]) for n in man["not_applicable"]]
out += ["", "## Planted bugs (`seeded/`)", "",
        "Each was written from a property and the code, passes the 46 tests, has a failing demonstration, and is reported by the check of its property.", ""]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); out.append("- %s (caught by %s): %s. Needs: %s." % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip(".")))
k = [json.loads(l) for l in open(V + "/known_findings.jsonl")]
out += ["", "## Genuine defects", "", "Repaired (`fix:` commits in /repo):", ""] + ["- " + e["entry"] for e in k if e["status"] == "fixed"]
out += ["", "Recorded, not repaired (`known_findings.jsonl`; matched by rule and instance, so that another violation of the same property is still reported):", ""]
out += ["- %s `%s`, %s: %s" % (e["property"], e["rule"], e["instance"], e["what"]) for e in k if e["status"] == "known"]
out += ["", open(V + "/tools/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))

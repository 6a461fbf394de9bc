"""Generates properties.jsonl and MANIFEST.json (claims: properties with a module in checks/)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, st, over, q, why, files, mech, observe, na=None, level="other", note="", tech="abstract interpretation of the compiled intermediate representation", state=None):
    P.append(dict(id=id, title=title, statement=st, over=over, q=q, why=why, files=files, mech=mech, observe=observe, na=na, level=level, note=note, tech=tech, state=state))
exec(open(os.path.join(V, "tools/props_src.py")).read())
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
            if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["st"] if "st" in p else p["statement"],
                                "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, "checks", p["id"] + ".py")) and not p["na"]:
            checks.append({"property": p["id"], "quick_cmd": "python3 tools/framework.py %s quick" % p["id"],
                           "thorough_cmd": "python3 tools/framework.py %s thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": p["level"],
                           "level_note": p["note"] or "sound for the rules listed in the evidence file under its stated assumptions"})
        else: na.append({"property": p["id"], "reason": p["na"] or "not decided by the machinery yet"})
    m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
         "notes": "All checks are static: /repo's current sources are compiled to LLVM IR and analysed; nothing of /repo is executed."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed,", len(na), "not")
main()

"""Makes and confirms planted changes. usage: seed.py make <spec.py>   (spec: S = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=<c++ source>, [libs], [sh=<demo.sh>])})
seed.py confirm <id>...   applies each to /repo, builds, tests, runs the demo and the property's check, undoes it."""
import os, sys, json, subprocess, importlib.util, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# run with cwd /repo after the build; exit 0: behaves as it should
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cd "$R/_build" || exit 3
g++ -std=c++11 -O1 -g -I"$R/include" -I"$R/src" -I"$R" -I"$R/3rd_party/base64/include" -Iheaders/include -Igenerated -Igenerated/lightstep-tracer-common -Igenerated/lightstep-tracer-configuration \\
  "$D/demo.cpp" -o "$W/demo" libscope.a libprotos.a -lprotobuf -lpthread -lcares || exit 3
cd "$W" && timeout 200 ./demo
"""
def run(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def clean(): run("git -C /repo checkout -q -- .")
def make(spec):
    s = importlib.util.spec_from_file_location("m", spec); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    for sid, d in m.S.items():
        clean()
        for f, a, b in d["edits"]:
            p = "/repo/" + f; t = open(p).read()
            if t.count(a) < 1: print(sid, "NOMATCH", a[:60]); break
            open(p, "w").write(t.replace(a, b, 1))
        else:
            dst = os.path.join(VERIF, "seeded", sid); os.makedirs(dst, exist_ok=True)
            open(dst + "/patch.diff", "w").write(subprocess.check_output("git -C /repo diff", shell=True).decode())
            if "demo" in d: open(dst + "/demo.cpp", "w").write(d["demo"])
            open(dst + "/demo.sh", "w").write(d.get("sh", SH)); os.chmod(dst + "/demo.sh", 0o755)
            json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        clean()
def tests():
    r = run("bash /opt/vp/build.sh")
    if r.returncode: return "BUILD FAILS " + r.stdout.decode()[-800:]
    run("bash /opt/vp/test.sh /tmp/seedtest.json")
    o = json.load(open("/tmp/seedtest.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    def names(x):
        if isinstance(x, dict):
            for k in ("passed", "stable", "tests", "pass"):
                if k in x: return set(x[k]) if not isinstance(x[k], dict) else {n for n, v in x[k].items() if v in (True, "passed", "pass")}
        return set(x)
    miss = names(b) - names(o)
    return "tests ok (%d)" % len(names(o)) if not miss else "TESTS FAIL %s" % sorted(miss)[:4]
def confirm(ids):
    clean(); print("base:", tests())
    for s in ids:
        r = run("cd /repo && bash %s/seeded/%s/demo.sh" % (VERIF, s)); print("%-28s unpatched demo rc=%d %s" % (s, r.returncode, r.stdout.decode()[-300:] if r.returncode else ""), flush=True)
    for s in ids:
        d = "%s/seeded/%s" % (VERIF, s)
        a = run("git -C /repo apply %s/patch.diff" % d)
        if a.returncode: print(s, "DOES NOT APPLY", a.stdout.decode()); continue
        t = tests()
        rc = run("cd /repo && bash %s/demo.sh" % d)
        pid = json.load(open(d + "/meta.json"))["property"]
        line = ""
        if os.path.exists("%s/checks/%s.py" % (VERIF, pid)):
            c = run("VERIF_EVIDENCE=/tmp/seedev python3 %s/tools/framework.py %s quick" % (VERIF, pid))
            L = [l for l in c.stdout.decode().splitlines() if l.startswith("  ") or "BROKEN" in l]
            line = "check rc=%d %s" % (c.returncode, (L[0].strip() if L else "")[:150])
        print("%-28s %s; demo rc=%d; %s" % (s, t, rc.returncode, line), flush=True)
        clean()
    run("bash /opt/vp/build.sh")
if sys.argv[1] == "make": make(sys.argv[2])
else: confirm(sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded")))

"""Runs every check against edits of /repo (selftest/blind*.py: M = [(kind, name, expected, [(file, old, new), ...])]; V: at
least one of the expected checks reports a violation, Q: every check stays quiet). usage: blind.py FILE [name-substring] [ID,ID]"""
import os, sys, shutil, subprocess, importlib.util, concurrent.futures, queue, glob, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUTW", "/tmp/mutw")
sys.path.insert(0, VERIF + "/selftest")
ALL = sorted(os.path.basename(p)[:-3] for p in glob.glob(VERIF + "/checks/C??.py"))
def main():
    s = importlib.util.spec_from_file_location("m", os.path.join(VERIF, "selftest", sys.argv[1] + ".py"))
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    sub = sys.argv[2] if len(sys.argv) > 2 else ""; only = sys.argv[3].split(",") if len(sys.argv) > 3 else ALL
    jobs = [x for x in m.M if sub in x[1]]
    n = int(os.environ.get("MUTJ", "7")); q = queue.Queue()
    for w in range(n):
        d = "%s/%d" % (W, w); os.makedirs(d, exist_ok=True)
        shutil.rmtree(d + "/repo", ignore_errors=True); subprocess.run("mkdir -p %s/repo && cd /repo && tar cf - --exclude=.git --exclude=_build . | tar xf - -C %s/repo" % (d, d), shell=True, check=True)
        q.put(d)
    bad = 0
    def run(j):
        k, nm, want, ed = j; d = q.get(); saved = {}; fired = {}
        try:
            for f, a, b in ed:
                path = d + "/repo/" + f; t = open(path).read()
                saved.setdefault(path, t)
                if a not in t: return j, "NOMATCH", f + ": " + a[:60]
                t = t.replace(a, b, 1); open(path, "w").write(t)
            env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build", VERIF_JOBS="2", VERIF_EVIDENCE=d + "/evidence")
            order = [x for x in want if x in only] + [x for x in only if x not in want]
            for p in order:
                try: r = subprocess.run([sys.executable, os.path.join(VERIF, "tools/framework.py"), p, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=900)
                except subprocess.TimeoutExpired: fired[p] = "TIMEOUT"; continue
                if r.returncode:
                    out = r.stdout.decode(errors="replace")
                    L = [l for l in out.splitlines() if l.startswith("  ") or "BROKEN" in l or "rror" in l]
                    fired[p] = "%d %s" % (r.returncode, (L[0] if L else out[-200:]).strip()[:150])
                    if k == "V" and p in want and r.returncode == 1: break
            return j, "done", fired
        finally:
            for f, t in saved.items(): open(f, "w").write(t)
            q.put(d)
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for fu in concurrent.futures.as_completed([ex.submit(run, j) for j in jobs]):
            j, res, fired = fu.result(); k, nm, want, ed = j
            if res != "done": print("MISS", k, nm, res, fired, flush=True); bad += 1; continue
            ok = not fired if k == "Q" else any(p in want and v.startswith("1 ") for p, v in fired.items())
            bad += not ok
            print("%s %s %-28s %s" % ("ok  " if ok else "MISS", k, nm, "; ".join("%s:%s" % x for x in sorted(fired.items())) if not ok or k == "Q" else ",".join(p for p in fired)), flush=True)
    print("%d mutants, %d wrong" % (len(jobs), bad))
main()

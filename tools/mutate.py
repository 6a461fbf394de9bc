"""Runs checks against small edits of /repo (selftest/<ID>.py: M = [(kind, name, [(file, old, new), ...])]; kind V: the
check must report a violation, Q: it must stay quiet). usage: mutate.py ID[,ID] [name-substring]"""
import os, sys, shutil, subprocess, importlib.util, concurrent.futures, queue
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "selftest"))
W = os.environ.get("MUTW", "/tmp/mutw")
def load(pid):
    s = importlib.util.spec_from_file_location("m", os.path.join(VERIF, "selftest", pid + ".py"))
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m.M
def main():
    ids = sys.argv[1].split(","); sub = sys.argv[2] if len(sys.argv) > 2 else ""
    n = int(os.environ.get("MUTJ", "6"))
    jobs = [(p, k, nm, ed) for p in ids for k, nm, ed in load(p) if sub in nm]
    q = queue.Queue()
    for w in range(n):
        d = "%s/%d" % (W, w); os.makedirs(d, exist_ok=True)
        subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "/repo/", d + "/repo/"], check=True) if shutil.which("rsync") else (shutil.rmtree(d + "/repo", ignore_errors=True), subprocess.run("mkdir -p %s/repo && cd /repo && tar cf - --exclude=.git . | tar xf - -C %s/repo" % (d, d), shell=True, check=True))
        q.put(d)
    bad = 0
    def run(j):
        p, k, nm, ed = j
        d = q.get()
        try:
            saved = {}
            for f, a, b in ed:
                path = d + "/repo/" + f
                t = open(path).read()
                if path not in saved: saved[path] = t
                if a not in t: return j, "NOMATCH", f + ": " + a[:60]
                t = t.replace(a, b, 1)
                open(path, "w").write(t)
            env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build", VERIF_JOBS="2", VERIF_EVIDENCE=d + "/evidence")
            try: r = subprocess.run([sys.executable, os.path.join(VERIF, "tools/framework.py"), p, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=900)
            except subprocess.TimeoutExpired: return j, 'TIMEOUT', ''
            out = r.stdout.decode(errors="replace")
            res = {0: "quiet", 1: "VIOLATION"}.get(r.returncode, "BROKEN")
            return j, res, out
        finally:
            for f, t in saved.items(): open(f, "w").write(t)
            q.put(d)
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for j, res, out in ex.map(run, jobs):
            want = {"V": "VIOLATION", "Q": "quiet"}[j[1]]
            ok = res == want
            bad += not ok
            L = [l for l in out.splitlines() if l.startswith("  ") or "BROKEN" in l or "Error" in l]
            print("%s %-4s %s %-40s %s" % ("ok  " if ok else "MISS", j[0], j[1], j[2], "" if ok and j[1] == "Q" else "%s: %s" % (res, (L[0] if L else out[-300:]).strip()[:170])), flush=True)
    print("%d mutants, %d wrong" % (len(jobs), bad))
main()

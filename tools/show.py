import json, sys
from build import build_facts, build_view
from viewdefs import spec
def opn(o):
    if isinstance(o, (str, int)): return str(o)
    if o is None: return "?"
    if "base" in o: return "gep(%s+%d%s)" % (opn(o["base"]), o["off"], "".join("+%s*%d" % (opn(a), b) for a, b in o.get("var", [])))
    return json.dumps(o)[:80]
def show(f, files):
    print("==", f["name"], f.get("scope"), f.get("dname"), [a[0] + ":" + str(i) for i, a in enumerate(f["args"])])
    for bi, b in enumerate(f.get("blocks", [])):
        print(" B%d:" % bi)
        for i in b:
            x = "   %%%d = %s" % (i["id"], i["op"])
            if "base" in i: x += " " + opn({k: i[k] for k in ("base", "off", "var") if k in i})
            if "callee" in i: x += " " + opn(i["callee"]) + "(" + ", ".join(opn(o) for o in i["ops"]) + ")"
            elif "ops" in i: x += " " + ", ".join(opn(o) for o in i["ops"])
            for k in ("pred", "ord", "ford", "rmw", "succ", "inc", "normal", "unwind", "cases", "def", "idx", "aty","clauses","cleanup"):
                if k in i: x += " %s=%s" % (k, i[k])
            x += "   ; %s %s:%s" % (i.get("fn", ""), files[i["f"]].split("/")[-1] if "f" in i else "", i.get("ln", ""))
            print(x)
if __name__ == "__main__":
    d = build_facts()
    roots = [a for a in sys.argv[1:] if not a.startswith("-")]
    bar = [a[2:] for a in sys.argv[1:] if a.startswith("-b")]
    v = json.load(open(build_view(d, "show", spec("show", roots, bar))))
    for u in v["units"]:
        for f in u["functions"]:
            if "blocks" in f: show(f, v["files"])

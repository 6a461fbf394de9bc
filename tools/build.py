"""Builds the facts the rules are decided on, from /repo's current working tree.

Every unix translation unit of /repo's src (plus 3rd_party/base64 and our template-instantiation unit) is
compiled to LLVM bitcode with clang, the protobuf schemas are compiled with protoc, and `irdump` turns the
bitcode into JSON.  Results are cached under /verif/build keyed by the content of every input.
"""
import hashlib, json, os, re, shutil, subprocess, sys, glob, concurrent.futures, fcntl, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
LTC = os.path.join(REPO, "lightstep-tracer-common")

class Broken(Exception):
    """The analysis could not be carried out (exit code 2): never a verdict."""

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd)[:400], p.stdout.decode(errors="replace")[-3000:]))
    return p.stdout.decode(errors="replace")

def llvm(tool, flag):
    return run(["llvm-config-18", flag]).split()

def build_tool():
    src = [os.path.join(VERIF, "tools", f) for f in ("irdump.cpp", "irview.inc")]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    out = os.path.join(BUILD, "irdump-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    run(["clang++-18", "-O1", src[0]] + llvm("", "--cxxflags") + ["-fno-rtti", "-o", tmp] + llvm("", "--ldflags") + ["-lLLVM-18"])
    os.rename(tmp, out)
    return out

EXCLUDE = re.compile(r"_windows\.cpp$|no_grpc_transporter|no_stream_recorder|no_dns_resolver")

OPTIONAL = re.compile(r"/src/(tracer/(?!no_default)|recorder/(?!metrics_tracker|serialization/(embedded_metrics_message|report_request)\.|stream_recorder/(span_stream|utility)\.)|common/(chunked_http|hex_conv|logger|report_request_framing|serialization|utility\.|version)|network/(event|timer_event|ares_dns_resolver/ares_dns))")

def sources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith(".cpp") and not EXCLUDE.search(p):
                r.append(p)
    b64 = os.path.join(REPO, "3rd_party/base64/src/base64.cpp")
    if os.path.exists(b64):
        r.append(b64)
    return sorted(r)

def models():
    return sorted(glob.glob(os.path.join(VERIF, "models", "*.cpp")))

def input_files():
    fs = []
    for top in ("src", "include", "3rd_party/base64", "lightstep-tracer-common", "lightstep-tracer-configuration"):
        for d, _, names in os.walk(os.path.join(REPO, top)):
            for n in names:
                if re.search(r"\.(cpp|h|hpp|inc|c|cc|proto|in)$", n):
                    fs.append(os.path.join(d, n))
    fs += [os.path.join(REPO, f) for f in ("version.h.in", "CMakeLists.txt") if os.path.exists(os.path.join(REPO, f))]
    for top in ("stubs", "models", "shadow"):
        for d, _, names in os.walk(os.path.join(VERIF, top)):
            fs += [os.path.join(d, n) for n in names]
    return sorted(fs)

def facts_key():
    h = hashlib.sha256()
    for f in input_files() + [os.path.join(VERIF, "tools", x) for x in ("irdump.cpp", "irview.inc", "build.py")]:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
        h.update(b"\0")
    return h.hexdigest()[:20]

def gen_headers(d):
    g1 = os.path.join(d, "gen", "lightstep-tracer-common")
    g2 = os.path.join(d, "gen", "lightstep-tracer-configuration")
    inc = os.path.join(d, "inc", "lightstep")
    for x in (g1, g2, inc):
        os.makedirs(x, exist_ok=True)
    gp = os.path.join(LTC, "third_party/googleapis")
    pp = ["--proto_path=" + os.path.join(LTC, "third_party/protobuf") if os.path.isdir(os.path.join(LTC, "third_party/protobuf")) else "--proto_path=/usr/include",
          "--proto_path=" + gp]
    run(["protoc"] + pp + ["--cpp_out=" + g1, gp + "/google/api/http.proto", gp + "/google/api/annotations.proto"])
    run(["protoc"] + pp + ["--proto_path=" + LTC, "--cpp_out=" + g1, LTC + "/collector.proto", LTC + "/lightstep_carrier.proto"])
    cfg = os.path.join(REPO, "lightstep-tracer-configuration")
    run(["protoc", "--proto_path=" + cfg, "--proto_path=/usr/include", "--cpp_out=" + g2, cfg + "/tracer_configuration.proto"])
    v = open(os.path.join(REPO, "version.h.in")).read()
    v = re.sub(r"@[A-Z_]*MAJOR[A-Z_]*@|\$\{[A-Z_]*MAJOR[A-Z_]*\}", "0", v)
    v = re.sub(r"@[A-Z_]+@|\$\{[A-Z_]+\}", "0", v)
    v = v.replace("#cmakedefine", "#define")
    open(os.path.join(inc, "version.h"), "w").write(v)

def include_flags(d):
    g = os.path.join(d, "gen")
    return ["-I" + REPO + "/include", "-I" + REPO + "/src", "-isystem", VERIF + "/stubs",
            "-isystem", REPO + "/3rd_party/base64/include", "-isystem", g,
            "-isystem", g + "/lightstep-tracer-common", "-isystem", g + "/lightstep-tracer-configuration",
            "-I" + d + "/inc"]

CFLAGS = ["-std=gnu++11", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-discard-value-names", "-DNDEBUG", "-w",
          "-flto=full", "-fwhole-program-vtables", "-fvisibility=hidden", "-emit-llvm", "-c"]

def compile_cached(flags, src, out):
    """compiles, reusing the bitcode of identical preprocessed text"""
    pp = out + ".ii"
    run(["clang++-18"] + [f for f in flags if f not in ("-emit-llvm", "-c")] + ["-E", src, "-o", pp])
    text = re.sub(rb"facts-[0-9a-f]{20}", b"facts", open(pp, "rb").read())
    h = hashlib.sha256(text + " ".join(CFLAGS).encode()).hexdigest()[:24]
    os.unlink(pp)
    cache = os.path.join(BUILD, "bccache")
    os.makedirs(cache, exist_ok=True)
    c = os.path.join(cache, h + ".bc")
    if not os.path.exists(c):
        t = "%s.%d.%d" % (c, os.getpid(), threading.get_ident())
        run(["clang++-18"] + flags + [src, "-o", t])
        os.rename(t, c)
    else: os.utime(c)
    shutil.copyfile(c, out)

def prune_cache():
    cache = os.path.join(BUILD, "bccache")
    if not os.path.isdir(cache): return
    fs = sorted((os.path.join(cache, x) for x in os.listdir(cache)), key=os.path.getmtime)
    for f in fs[:-400]: os.unlink(f)

def build_facts(log=None):
    """Returns the directory with linked.bc, whole.json and meta.json for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tool = build_tool()
        key = facts_key()
        d = os.path.join(BUILD, "facts-" + key)
        if os.path.exists(os.path.join(d, "done")):
            os.utime(d)
            return d
        # keep the cache small
        old = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith("facts-")), key=os.path.getmtime)
        for x in old[:-6]:
            shutil.rmtree(x, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/bc")
        t0 = time.time()
        gen_headers(d)
        inc = include_flags(d)
        srcs = sources()
        jobs = []
        for s in srcs + models():
            rel = s[len(REPO) + 1:] if s.startswith(REPO) else "verif_" + os.path.basename(s)
            jobs.append((s, os.path.join(d, "bc", rel.replace("/", "_") + ".bc")))
        failed = []
        def comp(j):
            try:
                compile_cached(CFLAGS + inc, j[0], j[1])
            except Broken as e:
                # parts that only build against libraries absent here are checked against declarations of our own
                # (stubs/): if one stops compiling, the rules that need it give no answer, the others go on
                if not OPTIONAL.search(j[0]): raise
                failed.append([j[0], str(e)[-1500:]])
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(comp, jobs))
        bad = {f[0] for f in failed}
        bcs = [j[1] for j in jobs if j[0] not in bad]
        run([tool, "dump", d + "/whole.json"] + bcs)
        run([tool, "link", d + "/linked.bc"] + bcs)
        json.dump({"sources": [s[len(REPO) + 1:] for s in srcs], "build_s": time.time() - t0, "failed": failed}, open(d + "/meta.json", "w"))
        shutil.rmtree(d + "/bc")
        prune_cache()
        open(d + "/done", "w").close()
        return d

def build_shadow(d, srcs):
    """the given sources compiled against the stand-in headers of shadow/, linked on their own"""
    tool = build_tool()
    own = b"".join(open(s, "rb").read() for s in srcs if s.startswith(VERIF))
    h = hashlib.sha256(" ".join(srcs).encode() + own).hexdigest()[:12]
    out = os.path.join(d, "shadow-%s.bc" % h)
    if not os.path.exists(out):
        bcs = []
        for s in srcs:
            p = s if s.startswith("/") else os.path.join(REPO, s)
            if not os.path.exists(p): raise Broken("source %s not found" % s)
            b = "%s.%d.%d.bc" % (out, os.getpid(), len(bcs))
            compile_cached(CFLAGS + ["-I" + os.path.join(VERIF, "shadow")] + include_flags(d), p, b)
            bcs.append(b)
        tmp = "%s.%d" % (out, os.getpid())
        run([tool, "link", tmp] + bcs)
        os.rename(tmp, out)
        for b in bcs: os.unlink(b)
    return out

def build_view(d, name, spec, module=None):
    tool = build_tool()
    module = module or d + "/linked.bc"
    h = hashlib.sha256(spec.encode() + tool.encode() + module.encode()).hexdigest()[:12]
    out = os.path.join(d, "view-%s-%s.json" % (name, h))
    if not os.path.exists(out):
        sp = out + ".%d.spec" % os.getpid()
        open(sp, "w").write(spec)
        run([tool, "view", sp + ".json", module, sp])
        os.rename(sp + ".json", out)
        os.unlink(sp)
    return out

if __name__ == "__main__":
    t = time.time()
    print(build_facts(), "%.1fs" % (time.time() - t))

#!/usr/bin/env python3
"""Build and run one check:  run.py <property> [--replay FILE]

Builds the harness of the property together with the sources of the repository's current working
tree, explores, writes evidence/<property>.json, and exits 0 (held on everything explored),
1 (with a VIOLATION line) or 2 (error of the check)."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
# Runs against another tree than /repo (development only) leave the evidence alone
OUT = VERIF if REPO == "/repo" else os.path.join(VERIF, "build", "other")
NPROC = os.cpu_count() or 4

ASAN = ["-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-ftrivial-auto-var-init=pattern"]
TSAN = ["-fsanitize=thread", "-DMC_SCHED=1", "-ftrivial-auto-var-init=pattern", "-Wno-tsan"]
COMMON = ["-std=c++17", "-O1", "-g", "-w", "-include", "cstdint", "-fno-omit-frame-pointer"]

CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def repo_sources():
    """Library sources: everything under src that does not define main."""
    out = []
    for f in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
        if not re.search(r"\bint\s+main\s*\(", open(f, errors="replace").read()):
            out.append(f)
    return out

def tree_hash(extra):
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/src/**/*", recursive=True) + glob.glob(REPO + "/include/**/*", recursive=True)
                   + glob.glob(VERIF + "/mc/*") + glob.glob(VERIF + "/harness/*"))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]

def compile_violation(pid, spec, source, log):
    rdir = os.path.join(OUT, "replays"); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, pid + ".compile.log")
    open(rp, "w").write("compiling %s\n%s" % (source, log))
    ev = {"property": pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": spec["level"], "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
          "rule": spec["rule"], "samples": [], "exhaustive": False, "bounds": {}}, "assumptions": spec.get("assumptions", []),
          "wall_s": 0.0, "violations": 1}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, "evidence", pid + ".json"), "w"), indent=1)
    print("message: an operation of the public interface cannot be instantiated")
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    sys.exit(1)

def build(pid, spec):
    kind = spec.get("build", "asan")
    san = {"asan": ASAN, "tsan": TSAN}[kind]
    flags = COMMON + san + ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + VERIF + "/mc", "-I" + VERIF + "/harness", "-I" + REPO,
             '-DDATA_DIR="/nonexistent-data-dir"', '-DREPO_DIR="%s"' % REPO] + spec.get("flags", [])
    link = {"asan": ["-fsanitize=address", "-pthread", "-ldl"], "tsan": ["-pthread", "-ldl", "-rdynamic"]}[kind] + spec.get("link", [])
    key = tree_hash([flags, link, pid, REPO])
    bdir = os.path.join(VERIF, "build", pid + ("" if REPO == "/repo" else "-" + hashlib.sha256(REPO.encode()).hexdigest()[:8]))
    exe = os.path.join(bdir, "harness")
    stamp = os.path.join(bdir, "key")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe, 0.0
    os.makedirs(bdir, exist_ok=True)
    for f in (exe, stamp):
        if os.path.exists(f): os.unlink(f)
    t0 = time.time()
    plain = COMMON + (["-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR=1"] if kind == "asan" else []) + ["-O2"]
    jobs = []
    for i, f in enumerate(repo_sources()):
        jobs.append((f, "r%d.o" % i, flags))
    for i, f in enumerate(spec["harness"]):
        jobs.append((os.path.join(VERIF, "harness", f), "h%d.o" % i, flags))
    jobs.append((VERIF + "/mc/mc.cpp", "mc.o", plain))
    if kind == "tsan":
        jobs.append((VERIF + "/mc/mcsched.cpp", "sched.o", plain + ["-fno-builtin", "-fno-threadsafe-statics"]))
    headers = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/src/**/*", recursive=True) + glob.glob(REPO + "/include/**/*", recursive=True)
                    + glob.glob(VERIF + "/mc/*") + glob.glob(VERIF + "/harness/*")):
        # any file may be included, except the compiled library sources (C21 includes main.cpp)
        if os.path.isfile(f) and not (f.endswith(".cpp") and (f.startswith(VERIF) or f in repo_sources())):
            headers.update(f.encode()); headers.update(open(f, "rb").read())
    def comp(j):
        # an object is kept if its source, all headers and the flags are the same
        obj = os.path.join(bdir, j[1])
        k = hashlib.sha256(repr((j[0], j[2], headers.hexdigest())).encode() + open(j[0], "rb").read()).hexdigest()
        if os.path.exists(obj) and os.path.exists(obj + ".key") and open(obj + ".key").read() == k:
            return j, subprocess.CompletedProcess([], 0, "", "")
        if os.path.exists(obj + ".key"): os.unlink(obj + ".key")
        r = sh(["g++"] + j[2] + ["-c", j[0], "-o", obj])
        if r.returncode == 0: open(obj + ".key", "w").write(k)
        return j, r
    with ThreadPoolExecutor(NPROC) as ex:
        for j, r in ex.map(comp, jobs):
            if r.returncode:
                print("BUILD ERROR in %s\n%s" % (j[0], r.stdout[-6000:]))
                # The harness uses the public interface only.  If what fails to compile is a line of
                # the repository itself (a template it offers that cannot be instantiated), an
                # operation the property speaks about does not exist any more: a violation.
                m = re.search(r"^(\S+?):\d+(?::\d+)?: (?:fatal )?error:", r.stdout, re.M)
                if m and j[0].startswith(VERIF) and os.path.realpath(m.group(1)).startswith(os.path.realpath(REPO) + "/"):
                    compile_violation(pid, spec, j[0], r.stdout)
                sys.exit(2)
    r = sh(["g++"] + [os.path.join(bdir, j[1]) for j in jobs] + ["-o", exe] + link)
    if r.returncode:
        print("LINK ERROR\n" + r.stdout[-6000:])
        sys.exit(2)
    open(stamp, "w").write(key)
    return exe, time.time() - t0

def main():
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    t0 = time.time()
    exe, tb = build(pid, spec)
    bdir = os.path.dirname(exe)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:quarantine_size_mb=8:max_malloc_fill_size=1048576:malloc_fill_byte=190:allocator_may_return_null=0:detect_stack_use_after_return=1:exitcode=99:abort_on_error=0:color=never:symbolize=1"
    env["LC_ALL"] = "C"
    scratch = os.path.join(bdir, "scratch")
    shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
    env["MC_SCRATCH"] = scratch
    out = os.path.join(bdir, "result.json")
    for f in glob.glob(out + "*"): os.unlink(f)
    deadline = spec.get("deadline", 600) if tier == "quick" else spec.get("deadline_thorough", 3000)
    cmd = [exe, "--tier", tier, "--out", out, "--workers", str(NPROC), "--deadline", str(deadline), "--hang", "60"]
    if replay: cmd += ["--replay", os.path.abspath(replay)]
    r = subprocess.run(cmd, env=env, cwd=scratch)
    shutil.rmtree(scratch, ignore_errors=True)
    if replay: sys.exit(r.returncode)
    if not os.path.exists(out):
        print("ERROR: no result (exit %d)" % r.returncode); sys.exit(2)
    res = json.load(open(out))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"],
          "coverage": {
              "states": res["states"], "transitions": res["transitions"],
              "traces_validated_against_impl": res["executions"],
              "rule": spec["rule"], "samples": res["samples"], "exhaustive": res["exhaustive"],
              "capped": res["capped"], "bounds": res["bounds"],
              "choice_points": res["choice_points"], "max_depth": res["max_depth"]},
          "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if res["violated"] else 0}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, "evidence", pid + ".json"), "w"), indent=1)
    print("%s tier=%s executions=%d transitions=%d states=%d choice_points=%d exhaustive=%s build=%.1fs explore=%.1fs" % (
        pid, tier, res["executions"], res["transitions"], res["states"], res["choice_points"], res["exhaustive"], tb, res["wall_s"]))
    if res["violated"]:
        rdir = os.path.join(OUT, "replays"); os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, pid + ".replay")
        shutil.copy(out + ".violation", rp)
        print("message: " + res["message"])
        print(next((l.strip()[:3000] for l in open(rp) if l.startswith("case=")), ""))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if res["error"] or r.returncode != 0:
        print("ERROR: " + res["error"]); sys.exit(2)
    if res["executions"] == 0:
        print("ERROR: nothing explored"); sys.exit(2)
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        if l.startswith("known: property=%s " % pid):
            print("KNOWN-FINDING: " + l[len("known: "):].strip())
    sys.exit(0)

main()

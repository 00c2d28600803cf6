#!/usr/bin/env python3
"""Checks the machinery itself: scenarios whose number of executions, reachable states or violation is
known. Exits 0 if explorer and scheduler give exactly these answers, with 1, 3 and 8 workers."""
import json, os, subprocess, sys, shutil
from math import comb, factorial
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build", "selftest")
COMMON = ["-std=c++17", "-O1", "-g", "-w", "-fno-omit-frame-pointer", "-I" + V + "/mc"]
# name, preemption bound, violated (part of the message), number of states, other expectations
INF = 1 << 20
T = [
 ("orders2x3", INF, None, comb(6, 3)), ("orders2x4", INF, None, comb(8, 4)), ("orders3x2", INF, None, factorial(6) // 8),
 ("orders2x3", 0, None, 2), 
 ("lost_update", 0, None, 1), ("lost_update", 1, None, 2), ("store_buffer", 0, None, 2), ("store_buffer", 2, None, 3),
 ("race", 0, "data race", None), ("race_rw", 2, "data race", None), ("publish", INF, None, 2), ("locked", INF, None, 3),
 ("race_freed", 0, "data race", None), ("deadlock", 0, None, None), ("deadlock", 1, "deadlock", None), ("ordered", INF, None, 1),
 ("missed_signal", INF, "deadlock", None), ("signal", INF, None, 1), ("future", INF, None, 1), ("two", 0, None, None), ("two", 1, None, None), ("two", 2, "reached", None),
 ("rwlock", INF, None, 1), ("rwlock_bad", 0, "data race", None), ("staticinit", INF, None, 1), ("livelock", 1, "", None), ("spin", 2, None, 1),
 ("tree", 0, None, 3 * 4 * 6), ("needle", 0, "found", None), ("crash", 0, "signal 11", None), ("hang", 0, "does not terminate", None),
]
def sh(c): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    shutil.rmtree(B, ignore_errors=True); os.makedirs(B)
    jobs = [(V + "/selftest/selftest.cpp", "h.o", ["-fsanitize=thread", "-DMC_SCHED=1", "-Wno-tsan"]), (V + "/mc/mc.cpp", "mc.o", ["-O2"]),
            (V + "/mc/mcsched.cpp", "s.o", ["-O2", "-fno-builtin", "-fno-threadsafe-statics"])]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda j: sh(["g++"] + COMMON + j[2] + ["-c", j[0], "-o", B + "/" + j[1]]), jobs):
            if r.returncode: print(r.stdout); return 1
    r = sh(["g++"] + [B + "/" + j[1] for j in jobs] + ["-o", B + "/selftest", "-pthread", "-ldl", "-rdynamic"])
    if r.returncode: print(r.stdout); return 1
    bad = 0
    def one(k):
        name, p, viol, states, workers = k
        d = "%s/%s-%d-%d" % (B, name, p, workers); os.makedirs(d)
        env = dict(os.environ, SELFTEST=name, SELFTEST_P=str(p), MC_SCRATCH=d)
        subprocess.run([B + "/selftest", "--out", d + "/r", "--workers", str(workers), "--hang", "4", "--deadline", "200"], env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return k, json.load(open(d + "/r"))
    count = {}
    with ThreadPoolExecutor(4) as ex:
        for (name, p, viol, states, workers), j in ex.map(one, [t + (w,) for t in T for w in (1, 3, 8)]):
            e = []
            if j["violated"] != (viol is not None): e.append("violated=%s %s" % (j["violated"], j["message"]))
            if viol and viol not in j["message"]: e.append("message " + j["message"])
            if viol is None and not j["exhaustive"]: e.append("not exhaustive: " + j["error"])
            if states is not None and j["states"] != states: e.append("%d states instead of %d" % (j["states"], states))
            if viol is None and count.setdefault((name, p), j["executions"]) != j["executions"]: e.append("%d executions, with one worker %d" % (j["executions"], count[name, p]))
            if name == "tree" and j["executions"] != 72: e.append("%d executions" % j["executions"])
            if e: bad += 1
            if e or "-v" in sys.argv: print(name, "preemptions", p, "workers", workers, "executions", j["executions"], "states", j["states"], e or "ok")
    shutil.rmtree(B, ignore_errors=True)
    print("selftest: %d scenarios, %d wrong" % (3 * len(T), bad))
    return 1 if bad else 0
sys.exit(main())

#!/usr/bin/env python3
"""Writes MANIFEST.json (one check per entry of checks.json)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
checks = json.load(open(V + "/checks.json"))
SCHED = "stateless model checking of the real code: exhaustive exploration of all thread schedules up to a preemption bound under a controlled scheduler, with vector-clock race and deadlock detection"
ENUM = "stateless model checking of the real code: exhaustive bounded exploration of configurations, inputs and operation sequences, compared step by step with a reference model"
FAULT = "stateless model checking of the real code: exhaustive enumeration of write-failure and truncation points and of operation sequences, against a reference model"
NOTE = {
 "C01": "Every schedule within the preemption bound of the listed configurations, and every thread/batch/sample split on few schedules; weights compared with a single-threaded run and an independent reference network. Sequentially consistent atomics; accesses inside uninstrumented libstdc++ code are covered through interposed memory functions only.",
 "C02": "Every schedule within the preemption bound of 2-4 concurrent predictions; each result compared bit for bit with the same call made alone.",
 "C03": "Every data size/batch/thread/epoch split in the bounds; the complete order of operations on data source and layers is checked against the specification automaton.",
 "C21": "src/main.cpp is compiled into the harness; data source histories, validation schedules and whole-program runs on generated image files.",
 "C14": "Every byte of the file as failure or cut point for the listed models; failures injected into the real write path (limited file size, full device, missing directory).",
 "C19": "Every request sequence up to the depth bound, every cut position of both files, every header corruption of the menu.",
 "C17": "Expressions are enumerated at compile time as template instantiations of the real headers over operand kinds, operators and element types, and at run time over shapes and values.",
}
out = {"version": 1, "setup_cmd": "python3 selftest/selftest.py",
       "checks": [], "not_applicable": [],
       "notes": "No hooks in /repo: the schedule checks compile the unmodified sources with -fsanitize=thread instrumentation and link them to the scheduler's own run time (mc/mcsched.cpp). VERIF_TIER=thorough or --tier thorough selects the deep exploration; run.py <id> --replay FILE replays a violation."}
for pid in sorted(checks):
    t = SCHED if pid in ("C01", "C02", "C03", "C21") else FAULT if pid in ("C14", "C19") else ENUM
    out["checks"].append({"property": pid, "quick_cmd": "python3 run.py %s" % pid, "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid, "technique": t, "level": checks[pid]["level"],
        "level_note": NOTE.get(pid, "Exhaustive within the bounds reported in the evidence file; every execution runs the repository's code under AddressSanitizer and is compared with an independent reference computation. Behaviour outside the bounds is not covered.")})
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    if p["id"] not in checks: out["not_applicable"].append({"property": p["id"], "reason": "not claimed"})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")

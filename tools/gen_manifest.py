#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per binary that exists, the rest stay unclaimed until built."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
HIST = "exhaustive bounded exploration of operation histories of the real code against a reference model"
LAW = "exhaustive enumeration of values and functions over finite domains, real code against a reference model"
PROG = "exhaustive enumeration of bounded programs, real code against a reference interpreter"
SCHED = "stateless model checking of the real code: all thread interleavings under a controlled scheduler"
TECH = {"C01": HIST, "C02": HIST, "C03": HIST, "C04": HIST, "C05": SCHED, "C06": SCHED,
        "C07": "exhaustive enumeration of programs x poll schedules x panic placements under a controlled executor",
        "C13": "explicit-state search over all reachable values of the real type, each transition compared with a list model",
        "C15": PROG, "C16": PROG, "C17": PROG, "C18": PROG, "C19": PROG, "C20": HIST, "C25": PROG, "C30": PROG}
NOTE = ("Exhaustive within the bounds stated in the evidence (groups and their notes); every explored step runs the real "
        "library compiled from /repo's working tree and is compared with an independent reference. Says nothing beyond the "
        "bounds or about values outside the finite domains.")
EXTRA = {
 "C05": " Interleavings at the granularity of std::sync operations, interposed below the unmodified source; memory-ordering effects weaker than sequential consistency are not modelled (the code under test uses locks only).",
 "C06": " Interleavings at the granularity of std::sync operations, interposed below the unmodified source; the asynchronous runtime itself is trusted.",
 "C07": " The executor decides every readiness answer; timers and the multi-threaded runtime are outside the bound.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    b = i.lower()
    if any(os.path.exists(os.path.join(root, k, "src/bin", b + ".rs")) for k in ("mc", "mcs")):
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": TECH.get(i, LAW), "level": "model_checking",
                       "level_note": NOTE + EXTRA.get(i, ""), "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": "check not built yet (in progress)"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks use the public API only; the schedule checks interpose std::sync with a replacement std facade passed to rustc (tools/rustc_wrap.py), without touching /repo", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "check.sh builds from /repo's current tree. Repairs of genuine defects are the 'fix:' commits in /repo, listed in known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")

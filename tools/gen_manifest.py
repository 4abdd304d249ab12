#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables in this directory."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from budget import BUDGET
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
NA = {
    "C22": "evaluated at compile time or pure functions: nothing nondeterministic to simulate",
}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in BUDGET:
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s quick" % i,
            "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded schedules, weak-memory reads, allocation and caller faults, reference model, replayable minimised traces",
            "level": "exploration",
            "level_note": "seeded search over schedules and faults of the real code in a simulator that owns threads, memory order, allocation, futexes, clock and caller code; a sample, not an enumeration",
        })
    elif i in NA:
        na.append({"property": i, "reason": NA[i]})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./dsim/build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)

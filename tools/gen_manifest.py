#!/usr/bin/env python3
"""Source of MANIFEST.json."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "sim"))
from info import INFO, RUNS
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    d = json.loads(l); i = d["id"]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": "%d seeded simulated runs (quick), %d (thorough) of the real programs under a simulated operating system; oracle: %s" % (RUNS[i], RUNS[i] * 40, INFO[i]["oracle"])})
m = {"version": 1, "setup_cmd": "python3 -c 'print(\"every check builds the simulator from /repo itself\")'", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the programs of /repo are compiled unmodified and their libc calls are redirected at link level. 'python3 check.py --replay FILE' reproduces a violation."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")

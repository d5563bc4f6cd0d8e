#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, vf/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf.registry import CHECKS, NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": t, "level": CHECKS[i][1], "level_note": n})
    else:
        na.append({"property": i, "reason": "specification and conformance harness not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; harnesses in harness/ are built from /repo's working tree on every run. No hooks in /repo: instrumentation is done by compiling /repo's headers against stand-ins for std::atomic and std::mutex (C01-C04), and by test doubles in /verif."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")

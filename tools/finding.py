#!/usr/bin/env python3
"""finding.py PROP COMMIT WHAT...: record a repaired defect in known-findings.jsonl (run by hand)."""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.jsonl")
open(f, "a").write(json.dumps({"property": sys.argv[1], "status": "fixed", "entry": "fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], " ".join(sys.argv[3:]))}) + "\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks (vxlib/table.py); run from /verif after changing the table."""
import json, os, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, ".")
sys.dont_write_bytecode = True
from vxlib import table
NOT = table.NOT_APPLICABLE
checks, na = [], []
for l in open("properties.jsonl"):
    d = json.loads(l)
    i = d["id"]
    if i in table.CHECKS:
        s = table.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": s.technique, "level": "model_checking",
                       "level_note": "Decided within bounds: " + s.bounds + ". Assumes: " + "; ".join(list(table.ASSUMPTIONS if s.common else []) + s.assumptions) + "."})
    else:
        na.append({"property": i, "reason": NOT.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -m vxlib.build", "checks": checks, "not_applicable": na,
           "notes": "The checks add no hooks to /repo; clocks, threads, files and the compiled part of the C++ library are modelled in /verif/rt and /verif/stubs."},
          open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

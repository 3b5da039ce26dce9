#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import CHECKS
checks = []
for pid in sorted(CHECKS):
    c = CHECKS[pid]
    checks.append({"property": pid, "quick_cmd": "python3 tools/check.py " + pid, "thorough_cmd": "python3 tools/check.py " + pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": c["technique"],
                   "level": c.get("level", "model_checking"), "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "TLA+ specification in spec/, driver in driver/ (compiled into /repo's module by a build overlay, no hooks in /repo), "
              "findings in known-findings.txt, design in DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

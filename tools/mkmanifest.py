#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from the suite."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from harness.suite import SPEC          # noqa: E402

INT = ("path-forking symbolic execution of the real Python code (names, values, hash orders and edit histories as symbols), "
       "assertions discharged by z3 on every path")
REAL = ("path-forking symbolic execution of the real Python code over symbolic reals, assertions discharged by z3 (QF_NRA) "
        "on every path")
BOTH = "path-forking symbolic execution of the real Python code over symbolic reals and IEEE doubles, assertions discharged by z3"
NOTE = ("Bounded: every path within the bounds is explored and each assertion is decided for all values on it. Bounds: %s. "
        "Outside: %s. Assumes: %s.")
REALS = ["C14"] + ["C%d" % i for i in range(21, 34) if i != 24]

checks = []
for pid in sorted(SPEC):
    s = SPEC[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "./vt.sh %s --tier quick" % pid,
        "thorough_cmd": "./vt.sh %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": BOTH if pid in ("C20", "C24") else REAL if pid in REALS else INT,
        "level": "model_checking",
        "level_note": NOTE % (s["bounds"]("quick"), s["outside"] or "nothing beyond the bounds", "; ".join(s["assumptions"])),
    })
m = {"version": 1,
     "setup_cmd": "mkdir -p evidence && python3-vt -m compileall -q engine harness",
     "checks": checks,
     "not_applicable": [],
     "notes": "No hooks in /repo: the loader rewrites imports and operators of /repo's current sources in memory. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")

#!/usr/bin/env python3
"""Write MANIFEST.json from the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import CHECKS, TITLES

NOTES = {}
NA = {}
TECH = ("solver-based bounded symbolic execution: the LLVM IR that rustc emits for the real crate, linked with the harness, is "
        "executed with symbolic inputs and Z3 decides every branch and assertion (own executor, /verif/engine)")
checks = []
for c in sorted(CHECKS):
    quick = [e for e in CHECKS[c] if e.tier == "quick"]
    checks.append({
        "property": c,
        "quick_cmd": f"python3 tools/check.py {c} --tier quick",
        "thorough_cmd": f"python3 tools/check.py {c} --tier thorough",
        "technique": TECH,
        "level": "model_checking",
        "level_note": NOTES.get(c, f"{TITLES[c]}: decided for all values within the bounds of {len(quick)} harnesses (quick) and {len(CHECKS[c])} (thorough), "
                                   "listed per property in DESIGN.md and, with what each run covered, in the evidence file; unbounded sizes are outside."),
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "machinery under construction")} for p in sorted(TITLES) if p not in CHECKS]}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)

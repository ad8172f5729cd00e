#!/usr/bin/env python3
"""replay.py FILE: run a counterexample against the natively compiled code of /repo's current tree."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
r = json.load(open(sys.argv[1]))
vlib.build_native(r["configuration"])
got, end = vlib.native(r["configuration"], [(r["entry"], r["input"])], 60)
print("input:", r["input"], "expected:", r["message"])
print("native:", got[0] if got else "no answer", end)
sys.exit(1 if (end != "ok" or not got or got[0][0] in ("FAIL", "PANIC")) else 0)

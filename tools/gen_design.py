#!/usr/bin/env python3
"""Write DESIGN.md."""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import CHECKS, TITLES, ASSUMPTIONS
from design_text import HEAD, PROPS, TAIL
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
o = [HEAD]
for c in sorted(TITLES):
    o.append(f"### {c} — {TITLES[c]}\n")
    o.append(PROPS[c] + "\n")
    for a in ASSUMPTIONS.get(c, []):
        o.append(f"Assumption: {a}.\n")
    if len(CHECKS[c]) > 60:
        groups = {}
        for e in CHECKS[c]:
            b = e.bounds.split(": ", 1)
            groups.setdefault((e.name, b[-1], e.tier), []).append(b[0])
        o.append("| harness | tier | configurations | bounds |\n|---|---|---|---|")
        for (n, b, t), cfgs in groups.items():
            o.append(f"| {n} | {t} | {', '.join(cfgs)} | {b} |")
    else:
        o.append("| harness | tier | bounds |\n|---|---|---|")
        for e in CHECKS[c]:
            o.append(f"| {e.name} | {e.tier} | {e.bounds} |")
    o.append("")
o.append(TAIL.rstrip("\n"))
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    o.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | {caught.get(os.path.basename(d), 'not yet run')} |")
o.append("")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))

#!/usr/bin/env python3
"""Makes DESIGN.md from DESIGN.in.md: fills in the lists of repairs and of seeded changes."""
import json, os, glob
H = os.path.dirname(os.path.abspath(__file__))
fixes = []
for e in json.load(open(f"{H}/known_findings.json")):
    what = e["what"]
    pre = f"fixed: property={e['property']} {e['commit']} "
    fixes.append(f"* {e['property']} {e['commit']}: {what.removeprefix(pre)}")
caught = json.load(open(f"{H}/caught.json"))
rows = ["| change | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(f"{H}/seeded/*/meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {m['needs']} | {caught.get(i, 'not run')} |")
s = open(f"{H}/DESIGN.in.md").read().replace("@@FIXES@@", "\n".join(fixes)).replace("@@SEEDS@@", "\n".join(rows))
open(f"{H}/DESIGN.md", "w").write(s)

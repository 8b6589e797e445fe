#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
 "nonzero-low-word": "values up to 1.7e38 and power-of-two scaling in C30",
 "nonzero-normal-only": "subnormal values",
 "scc-recursive-depth": "2 MB stacks, chains of 136 000 nodes",
 "diagonal-offset-narrowed": "offsets beside powers of two",
 "scale-columns-past-end": "spare room in C08; property C34",
}
try: MISSED.update(json.load(open(f"{V}/tools/missed.json")))
except OSError: pass
rows = ["| bug | needs | caught by | first missed; added |", "|---|---|---|---|"]
for s in sorted(os.listdir(f"{V}/seeded")):
    d = json.load(open(f"{V}/seeded/{s}/meta.json"))
    rows.append(f"| {s} | {d['needs']} | {d['property']} | {MISSED.get(s, '')} |")
p = f"{V}/DESIGN.md"
t = open(p).read()
new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
t = t.replace("SEEDTABLE", new) if "SEEDTABLE" in t else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: new, t, flags=re.S)
open(p, "w").write(t)

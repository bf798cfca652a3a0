#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md (between the two markers)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.setdefault(m["property"], []).append((d, m["what_it_breaks"]))
out = ["| check | catches |", "|---|---|"]
for p in sorted(rows):
    out.append("| %s | %s |" % (p, "; ".join("`%s`" % d for d, w in rows[p])))
path = os.path.join(here, "DESIGN.md")
s = open(path).read()
a, b = "<!-- planted -->", "<!-- /planted -->"
i, j = s.index(a) + len(a), s.index(b)
open(path, "w").write(s[:i] + "\n" + "\n".join(out) + "\n" + s[j:])
print(sum(map(len, rows.values())))

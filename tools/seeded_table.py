#!/usr/bin/env python3
"""Writes the table of section 6 of DESIGN.md from seeded/*/meta.json and tools/planted.json (the results of tools/plant.py)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/planted.json"))
notes = json.load(open(V + "/tools/planted_notes.json"))
rows = ["| planted bug | check | result | needs |", "|---|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    r = "caught" if "CAUGHT" in res.get(b, "") else "missed" if "MISSED" in res.get(b, "") else "not run"
    if b in notes:
        r += " (%s)" % notes[b]
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], r, m["needs"].replace("|", "/")))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), s, flags=re.S)
open(p, "w").write(s)
print(len(rows) - 2, "bugs")

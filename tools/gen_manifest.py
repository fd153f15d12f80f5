#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    conc = any(u["mode"] == "conc" for u in c["units"])
    checks.append({
        "property": p["id"],
        "quick_cmd": "bin/check " + p["id"],
        "thorough_cmd": "bin/check %s --thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c.get("technique") or ("stateless model checking of the real code: every thread interleaving within a preemption bound, under a controlled scheduler" if conc
                     else "bounded exhaustive exploration of the real code: every operation sequence, input and fault point within the bounds"),
        "level": "model_checking",
        "level_note": c.get("note") or ("Every execution within the bounds listed in the evidence is run on the code compiled from the working tree; nothing is sampled. "
                      "Trusted: the explorer in lib/, gcc, and for concurrent checks the stand-ins for pthread and clock calls; behaviour beyond the bounds is not covered."),
    })
na = [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in CHECKS]
m = {"version": 1, "setup_cmd": "bin/check --build-all", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks compile /repo's sources as they are, with instrumentation from the compiler. The checks' executions are enumerated, so VERIF_SEED has no effect on them."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per rule module in engine/rules, the other properties with a reason."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from techniques import TECH, NA
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "engine", "rules", p.lower() + ".py")):
        t, note = TECH[p]
        checks.append(dict(property=p, quick_cmd="bin/check %s quick" % p, thorough_cmd="bin/check %s thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=t, level="other", level_note=note))
    else:
        na.append(dict(property=p, reason=NA.get(p, "no check for this property has been built yet")))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="All checks are static: they read the MIR of /repo's current tree, extracted by driver/main.rs on every run. No hooks in /repo are needed. The thorough tier repeats the analysis for the default feature set and, for core rules, for stuart_core without features.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")

#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_head.md, the properties, the rules' documentation and the planted bugs."""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from techniques import TECH, NA, TRUST
MISSED = ("c05-else-in-section",)
out = [open(os.path.join(V, "tools", "design_head.md")).read(), "\n## Properties\n"]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    f = os.path.join(V, "engine", "rules", p["id"].lower() + ".py")
    out.append("\n### %s %s\n\n" % (p["id"], p["title"]))
    if not os.path.exists(f):
        out.append("Not applicable: %s.\n" % NA.get(p["id"], "no check has been built yet"))
        continue
    t, note = TECH[p["id"]]
    doc = ast.get_docstring(ast.parse(open(f).read())) or ""
    out.append("*Technique:* %s.\n\n%s\n\n*Scope:* %s\n" % (t, doc, note.replace(TRUST, "").strip()))
out.append("\n## Planted bugs\n\nEach was validated by `vcheck --bug` (builds, existing tests pass, the demonstration fails with it and passes without it).\n\n"
           "| change | what it breaks | needs | caught by |\n|---|---|---|---|\n")
S = os.path.join(V, "seeded")
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    cell = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    out.append("| %s | %s | %s | %s |\n" % (d, cell(m["what_it_breaks"]), cell(m["needs"]), "missed" if d in MISSED else m["property"]))
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))

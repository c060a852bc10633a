#!/usr/bin/env python3
"""Write DESIGN.md from design/*.md, props.py and the check modules."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import vlib.engine
import props
out = [open(os.path.join(V, "design/head.md")).read()]
for p in props.PROPS:
    m = importlib.import_module("checks." + p["id"])
    out.append("\n### %s %s\n" % (p["id"], p["title"]))
    out.append("Specified: %s\n" % p["statement"])
    out.append("\nGenerated (over %s): %s\n" % (p["text"], m.RULE))
    out.append("\nOracle: %s; %s\n" % (p["technique"], p["note"].split("; ", 1)[-1]))
    a = getattr(m, "ASSUMPTIONS", [])
    if a:
        out.append("\nBounds and assumptions: %s.\n" % "; ".join(a))
    out.append("\nCost: %d cases quick, %d thorough.  Why tests do not settle it: %s\n" % (m.QUICK, m.THOROUGH, p["why"]))
    n = os.path.join(V, "design", p["id"] + ".md")
    if os.path.exists(n):
        out.append("\n" + open(n).read())
out.append("\n" + open(os.path.join(V, "design/tail.md")).read())
k = json.load(open(os.path.join(V, "known_findings.json")))
out.append("\n## Known findings (not repaired)\n\n")
for f in k["findings"]:
    out.append("* %s: %s\n" % (f["property"], f["what"]))
out.append("\n## Genuine defects found and repaired\n\nEach is one `fix:` commit in /repo; the check that found it reports it again if it returns.\n\n")
for f in k["fixed"]:
    out.append("* %s\n" % f[len("fixed: property="):])
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))

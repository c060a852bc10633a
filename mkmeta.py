#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py, and fails when a check is missing."""
import importlib, json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
with open("properties.jsonl", "w") as f:
    for p in PROPS + [n for n, _ in NOT_APPLICABLE]:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 -m vlib.build", "checks": [], "not_applicable":
     [{"property": p["id"], "reason": r} for p, r in NOT_APPLICABLE],
     "notes": "./check ID --replay FILE re-runs one recorded case; DESIGN.md describes the engine. No hooks in /repo."}
for p in PROPS:
    assert os.path.exists("checks/%s.py" % p["id"]), p["id"]
    m["checks"].append({"property": p["id"], "quick_cmd": "./check %s" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p.get("level", "exploration"),
                        "level_note": p["note"]})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("properties.jsonl"):
    jsonschema.validate(json.loads(l), sch)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(PROPS), "properties")

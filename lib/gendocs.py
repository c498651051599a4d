#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/proptext.py and lib/registry.py (single source)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry, proptext

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in proptext.P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["q"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
checks = []
for p in proptext.P:
    c = registry.PROPS.get(p["id"])
    if not c:
        continue
    tech = "deductive verification of contracts on mechanically extracted code (Verus)" if c["units"] else ""
    if c.get("z3"):
        tech += (" + " if tech else "") + "z3 verification conditions over the expression trees the Python layer builds"
    tech = tech or "run-time contract checking (bounded)"
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": tech + "; the same contracts evaluated on the built extension (bounded)",
                   "level": c["level"], "level_note": c.get("level_note") or c.get("note") or "see DESIGN.md"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": proptext.NA,
     "notes": "No hooks are added to /repo: the extractor reads the sources as they are. Fix commits are listed in KNOWN-FINDINGS.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for ln in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(ln), s)
    print("valid:", len(checks), "checks")
except ImportError:
    print("written:", len(checks), "checks")

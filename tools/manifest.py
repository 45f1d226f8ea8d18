#!/usr/bin/env python3
"""Regenerates MANIFEST.json: a property is claimed when harness/<id>.py exists."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", i.lower() + ".py")):
        n = NOTES.get(i, {})
        checks.append(dict(
            property=i, quick_cmd=f"bash run.sh {i}", thorough_cmd=f"bash run.sh {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique=n.get("technique", "TLA+ specification model-checked with TLC; recorded executions of the real code validated against it by TLC"),
            level="model_checking",
            level_note=n.get("note", "The design invariants are checked exhaustively within the constants of the .cfg; conformance is established for every TLC-generated case replayed and every seeded random execution recorded, compared by TLC in exact rational arithmetic up to double-rounding tolerance. Trusted: TLC, the Java number overrides (checked by tools/selftest.sh), the recording driver, pandas/numpy.")))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("na", "check not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="See DESIGN.md. No hooks in /repo are needed: everything is observed through public functions and documented attributes.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")

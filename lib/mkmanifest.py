"""Writes MANIFEST.json from the table of checks."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks  # noqa: E402

res = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for prop, spec in sorted(checks.CHECKS.items()):
    res["checks"].append({
        "property": prop,
        "quick_cmd": "bin/check %s quick" % prop,
        "thorough_cmd": "bin/check %s thorough" % prop,
        "evidence_file": "evidence/%s.json" % prop,
        "technique": spec["technique"],
        "level": spec.get("level", "exploration"),
        "level_note": spec["note"],
    })
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")
with open(path, "w") as f:
    json.dump(res, f, indent=1)
    f.write("\n")

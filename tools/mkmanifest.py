"""Writes MANIFEST.json from contracts/registry.py and properties.jsonl."""
import json, sys
sys.path.insert(0, "/verif")
from contracts.registry import PROPERTIES, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "/opt/veriftools/pyvenv/bin/python3 tools/setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPERTIES:
        p = PROPERTIES[i]
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
            "technique": p.get("technique", "contract-based deductive verification of the real Python functions (pyvc: symbolic execution to z3/cvc5 obligations), failed obligations replayed on the real code"),
            "level": p["level"], "level_note": p["note"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "not built yet")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)

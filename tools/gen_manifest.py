#!/usr/bin/env python3
"""Write MANIFEST.json from bin/properties.py and properties.jsonl."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from properties import PROPS, NOT_APPLICABLE  # noqa: E402

ids = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 bin/check.py %s" % i,
            "thorough_cmd": "python3 bin/check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": p.get("technique", "bounded symbolic execution of the real code with SMT (Z3)"),
            "level": "model_checking",
            "level_note": p["bounds"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

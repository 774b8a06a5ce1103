#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        mods = ", ".join(x["module"] for x in c.get("models", []))
        trs = c["trace"]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ model checking (TLC) of %s; traces of the real code checked by TLC against %s" % (mods or trs, trs),
            "level": "model_checking",
            "level_note": c.get("note", ""),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "machinery not built yet"})
m["notes"] = "No hooks in /repo: the driver instruments copies of its packages through a build overlay."
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)

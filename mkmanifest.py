"""Writes MANIFEST.json from the list of implemented checks."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
DONE = json.load(open(os.path.join(ROOT, "mc", "claimed.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in DONE:
        d = DONE[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "./check.sh %s --thorough" % i,
                       "technique": d["technique"], "level": d.get("level", "model_checking"), "level_note": d["note"]})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

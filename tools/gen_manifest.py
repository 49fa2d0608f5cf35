#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has checks/pNN.py."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/check_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        n = notes[i]
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "No check has been built for it yet.")})
hooks = notes["hooks"]
m = {"version": 1, "setup_cmd": "./tools/setup.sh", "hooks": hooks, "checks": checks, "not_applicable": na, "notes": notes["notes"]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")

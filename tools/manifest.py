#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.json, lib/levels.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(V + "/lib/checks.json"))
notes = json.load(open(V + "/lib/notes.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 /verif/tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "Every check builds /repo's working tree itself into /verif/build (ignored by git, content-hash cache)."}
for p in props:
    i = p["id"]
    if i in checks:
        n = notes[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 /verif/check %s --tier quick" % i,
                            "thorough_cmd": "python3 /verif/check %s --tier thorough" % i,
                            "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet (work in progress)"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")

#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
NOTES = json.load(open(os.path.join(HERE, "lib", "levels.json")))
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": NOTES[i][0], "level": "model_checking", "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": "the check of this property is not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

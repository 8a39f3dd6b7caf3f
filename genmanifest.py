#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json, re, glob, os
root = os.path.dirname(os.path.abspath(__file__))
have = set()
for f in glob.glob(root + "/harness/h/*.go"):
    for m in re.finditer(r"^func (C\d\d)_\w+\(\)", open(f).read(), re.M):
        have.add(m.group(1))
notes = json.load(open(root + "/levels.json"))
checks, na = [], []
for line in open(root + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": notes[i].get("technique", "symbolic execution of the Go SSA form, assertions decided by Z3"),
            "level": "model_checking",
            "level_note": notes[i]["note"],
        })
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "no check has been built for this property yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = "runtime monitor: "
T = {}
def c(id, tech, note, level="exploration"):
    T[id] = (tech, note, level)
exec(open(os.path.join(here, "tools", "manifest_table.py")).read())
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    id = json.loads(l)["id"]
    if id not in T:
        na.append({"property": id, "reason": "no check yet"})
        continue
    tech, note, level = T[id]
    checks.append({"property": id, "quick_cmd": f"./run.sh {id} quick", "thorough_cmd": f"./run.sh {id} thorough",
        "evidence_file": f"evidence/{id}.json", "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every monitor observes the public interface. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")

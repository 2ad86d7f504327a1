#!/usr/bin/env python3
# Source of /verif/MANIFEST.json: run `python3 tools/mkmanifest.py` to regenerate it.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def t(id, level, technique, note): T[id] = (level, technique, note)
exec(open(os.path.join(V, "tools", "checks.txt")).read())
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in T:
        lev, tech, note = T[p]
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": tech, "level": lev, "level_note": note})
na = [{"property": json.loads(l)["id"], "reason": "check under construction"} for l in open(os.path.join(V, "properties.jsonl")) if json.loads(l)["id"] not in T]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: all observation happens at the public API, at the streams given to it, at the files on disk and in the race detector's and checkptr's instrumentation."}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")

#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    P = props.PROPS[i]
    checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                   "technique": P.technique, "level": P.level, "level_note": P.note})
json.dump({"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": []},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

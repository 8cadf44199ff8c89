#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules (TECHNIQUE, LEVEL, NOTE)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    path = os.path.join(HERE, "props", pid.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    c = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TECHNIQUE", "LEVEL", "NOTE"):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({
        "property": pid,
        "quick_cmd": f"/opt/venv/bin/python run.py {pid}",
        "thorough_cmd": f"/opt/venv/bin/python run.py {pid} --budget 600",
        "technique": c["TECHNIQUE"], "level": c.get("LEVEL", "exploration"), "level_note": c["NOTE"]})
json.dump({"version": 1, "setup_cmd": "gcc -O2 -w -o /dev/null lib/fakerbd.c",
           "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")

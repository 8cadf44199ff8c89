#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md, the property modules and the planted bugs."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(*p):
    with open(os.path.join(HERE, *p)) as f:
        return f.read()


def facts(pid):
    d = {"QUICK": 30}
    for n in ast.parse(read("props", pid.lower() + ".py")).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            k = n.targets[0].id
            if k in ("TECHNIQUE", "NOTE", "ASSUMPTIONS", "QUICK"):
                d[k] = ast.literal_eval(n.value)
            elif k == "CAMPAIGNS":
                d["C"] = [(c.args[0].value, c.args[3].value) for c in n.value.elts if isinstance(c, ast.Call)]
    return d


prose = {}
for part in ("\n" + read("design", "properties.md")).split("\n## ")[1:]:
    head, _, body = part.partition("\n")
    prose[head.strip()] = body.strip()
out = [read("design", "head.md").rstrip(), ""]
for line in read("properties.jsonl").splitlines():
    p = json.loads(line)
    pid = p["id"]
    f = facts(pid)
    out += [f"### {pid} {p['title']}", "", prose[pid], "",
            f"*Bounds*: {f['NOTE']}. *Cost*: {f['QUICK']} s quick, 600 s thorough, 8 processes.",
            "*Campaigns* (non-trivial): " + "; ".join(f"`{a}` ({b})" for a, b in f.get("C", [])) + ".",
            *(["*Assumed*: " + "; ".join(f["ASSUMPTIONS"]) + "."] if f["ASSUMPTIONS"] else []), ""]
out += [read("design", "tail.md").rstrip(), "", "## Defects found and repaired in /repo", "",
        "Each is one `fix:` commit; the check named found it and reports it again if it returns.", ""]
k = json.load(open(os.path.join(HERE, "known_findings.json")))
for x in k["fixed"]:
    pid, sha, what = x.removeprefix("fixed: property=").split(" ", 2)
    out.append(f"* {pid} ({sha}): {what}")
out += ["", "## Known findings (not repaired)", ""]
out += [f"* {x}" for x in k["known"]] or ["None."]
out += ["", "## Planted bugs", "", "Each was confirmed to build, to pass the stable tests and to fail its demonstration; result of the property's quick check on it:", "",
        "| bug | property | needs | breaks | quick check |", "|---|---|---|---|---|"]
res = json.loads(read("design", "bugs.json"))
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    b = os.path.basename(d)
    out.append(f"| {b} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {res.get(b, 'caught')} |")
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")

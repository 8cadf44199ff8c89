"""Keeps a planted bug: bug(id, property, [(file, old, new)], needs, breaks, demo) writes seeded/<id>/; used by hand-written scripts.

The demonstration is a Python program; `helper` (importable as demolib beside it) is not used unless named in extra files."""
import json
import os
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cd "$d" && timeout 200 /opt/venv/bin/python "$here/demo.py" "$d"
'''


def bug(bid, prop, edits, needs, breaks, demo, extra=()):
    wt = tempfile.mkdtemp(prefix="wt")
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {wt} && cd {wt} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(wt, "src/backy", f)
        s = open(p).read()
        assert s.count(old) == 1, (bid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    out = os.path.join(HERE, "seeded", bid)
    os.makedirs(out, exist_ok=True)
    diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.sh"), "w").write(RUN)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.py"), "w").write(demo.lstrip("\n"))
    for name, text in dict(extra).items():
        open(os.path.join(out, name), "w").write(text)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    subprocess.run(["rm", "-rf", wt])
    print(bid, len(diff.splitlines()))

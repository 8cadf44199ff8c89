"""metadata.py REPO DIR: minimal package metadata (entry points) from REPO/pyproject.toml."""
import os
import sys
import tomllib

repo, out = sys.argv[1:3]
with open(os.path.join(repo, "pyproject.toml"), "rb") as f:
    t = tomllib.load(f)
po = t.get("tool", {}).get("poetry", {})
pr = t.get("project", {})
name = po.get("name") or pr.get("name")
version = po.get("version") or pr.get("version")
d = os.path.join(out, f"{name}-{version}.dist-info")
os.makedirs(d)
with open(os.path.join(d, "METADATA"), "w") as f:
    f.write(f"Metadata-Version: 2.1\nName: {name}\nVersion: {version}\n")
groups = {"console_scripts": po.get("scripts") or pr.get("scripts") or {}}
groups.update(po.get("plugins") or pr.get("entry-points") or {})
with open(os.path.join(d, "entry_points.txt"), "w") as f:
    for g, eps in groups.items():
        f.write(f"[{g}]\n")
        for k, v in eps.items():
            f.write(f"{k} = {v}\n")
        f.write("\n")

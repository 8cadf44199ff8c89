#!/opt/venv/bin/python
"""Entry point of every check:  run.py C01 [--replay FILE] [--budget SECONDS]

Sets up an isolated environment (scratch directory, bytecode cache and package
metadata outside /repo), re-executes itself in it, and runs the property's
campaigns (see lib/engine.py)."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
HYPO = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def scratch_base():
    for base in ("/dev/shm", "/tmp", "/var/tmp"):
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 3 << 30:
                continue
            d = tempfile.mkdtemp(prefix="vf-", dir=base)
            return d
        except OSError:
            continue
    return tempfile.mkdtemp(prefix="vf-")


def outer():
    scratch = scratch_base()
    try:
        meta = os.path.join(scratch, "meta")
        os.mkdir(meta)
        # entry points and version of the package, built from the current tree
        r = subprocess.run(
            [PY, os.path.join(HERE, "lib", "metadata.py"), REPO, meta],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors="replace"))
            return 3
        bindir = os.path.join(scratch, "bin")
        os.mkdir(bindir)
        fake = os.path.join(bindir, "fakerbd")
        subprocess.run(["gcc", "-O2", "-w", "-o", fake, os.path.join(HERE, "lib", "fakerbd.c")], check=True)
        shim = os.path.join(scratch, "shim.so")
        subprocess.run(["gcc", "-O2", "-w", "-shared", "-fPIC", "-o", shim, os.path.join(HERE, "lib", "shim.c"), "-ldl"], check=True)
        for name in ("backy", "backy-rbd", "backy-file"):
            mod = {"backy": "backy.cli", "backy-rbd": "backy.rbd", "backy-file": "backy.file"}[name]
            p = os.path.join(bindir, name)
            with open(p, "w") as f:
                f.write(f"#!{PY}\nimport sys\nfrom {mod} import main\nif __name__ == '__main__':\n    sys.exit(main())\n")
            os.chmod(p, 0o755)
        env = {k: v for k, v in os.environ.items()
               if k in ("PATH", "LANG", "HOME", "VERIF_SEED", "VERIF_TIER", "VERIF_BUDGET", "VERIF_REPO", "VERIF_WORKERS", "VERIF_SHRINK")}
        env.update(
            PATH=bindir + ":" + os.environ.get("PATH", "/usr/bin:/bin"),
            LC_ALL="C.UTF-8", TZ="UTC",
            PYTHONPATH=os.pathsep.join([os.path.join(REPO, "src"), meta]),
            PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
            PYTHONHASHSEED="0", PYTHONUNBUFFERED="1",
            BACKY_RBD=fake, BACKY_EXTRACT="backy-extract-stand-in",
            VERIF_SCRATCH=scratch, VERIF_HERE=HERE, VERIF_HYPO=HYPO,
            TMPDIR=scratch, HOME=scratch,
            LD_PRELOAD=shim, VERIF_SHIM=shim,
        )
        env.setdefault("VERIF_SEED", "1")
        env.setdefault("VERIF_TIER", "quick")
        p = subprocess.Popen([PY, os.path.join(HERE, "lib", "engine.py")] + sys.argv[1:], env=env, cwd=scratch,
                             start_new_session=True)
        try:
            return p.wait()
        finally:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(outer())

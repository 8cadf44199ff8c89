"""Repositories that consist of metadata only, written directly in the on-disk format."""
import contextlib
import datetime
import io
import os
import sys

import shortuuid
import yaml
from hypothesis import strategies as st

from lib.world import DEFAULT_SCHEDULE, UTC

SERVERS = ["", "", "", "", "peer", "other"]
TAGS = ["daily", "weekly", "hourly", "manual:a", "manual:b", "old", "adhoc"]


def uid(i):
    return shortuuid.uuid(name=f"http://rev/{i}")


def utc(base, age=0):
    return (base - datetime.timedelta(seconds=age)).astimezone(datetime.timezone.utc)


def write_rev(path, d, name=None):
    """d as in the *.rev format; keys may be missing"""
    with open(os.path.join(path, (name or d["uuid"]) + ".rev"), "w", encoding="utf-8") as f:
        f.write("# Please use the `backy tags` subcommand to edit tags\n")
        yaml.safe_dump(d, f)


def record(i, ts, tags=("daily",), server="", trust="trusted", complete=True, orig=None, duration=1.5, data=7):
    return {
        "uuid": uid(i), "timestamp": ts, "parent": "", "trust": trust, "server": server,
        "stats": {"bytes_written": data, **({"duration": duration} if complete else {})},
        "tags": list(tags), "orig_tags": list(tags if orig is None else orig) if server else [],
    }


def rev_strategy(tags=TAGS, servers=SERVERS, maxage=40 * 86400, complete=None, maxtags=3):
    return st.fixed_dictionaries({
        "age": st.integers(0, maxage),
        "tags": st.lists(st.sampled_from(tags), max_size=maxtags, unique=True),
        "server": st.sampled_from(servers),
        "trust": st.sampled_from(["trusted", "trusted", "trusted", "distrusted", "verified"]),
        "complete": complete if complete is not None else st.sampled_from([True, True, True, False]),
    })


def build(path, revs, base, conf=None, distinct=True):
    """writes the repository; returns the records, oldest first (timestamps made distinct)"""
    os.makedirs(path, exist_ok=True)
    used = set()
    out = []
    for i, r in enumerate(revs):
        age = r["age"]
        while distinct and age in used:
            age += 1
        used.add(age)
        d = record(i, utc(base, age), r["tags"], r["server"], r["trust"], r["complete"], r.get("orig"))
        write_rev(path, d)
        out.append(d)
    out.sort(key=lambda d: d["timestamp"])
    write_config(path, conf)
    return out


def write_config(path, conf=None, source=None):
    with open(os.path.join(path, "config"), "w") as f:
        yaml.safe_dump({"path": str(path), "schedule": conf or DEFAULT_SCHEDULE,
                        "source": source or {"type": "file", "filename": os.path.join(path, "../source")}}, f)


class Tty(io.StringIO):
    encoding = "utf-8"


def cli(path, *argv, config=None):
    """runs the backy command in this process -> (exit status, stdout, stderr)"""
    import backy.cli
    out, err = Tty(), Tty()
    old = sys.argv
    sys.argv = ["backy", *(["-c", str(config)] if config else []), "-C", str(path), *argv]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                backy.cli.main()
                rc = 0
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    finally:
        sys.argv = old
    return rc, out.getvalue(), err.getvalue()


def canonical(d):
    """comparable form of a record (from a file or model)"""
    return {
        "uuid": d["uuid"], "timestamp": d["timestamp"], "trust": d.get("trust", "trusted"),
        "server": d.get("server", ""), "stats": d.get("stats", {}),
        "tags": sorted(d.get("tags", [])), "orig_tags": sorted(d.get("orig_tags", [])),
    }


def on_disk(path):
    from lib.world import read_rev_files
    return {u: canonical(d) for u, d in read_rev_files(path).items()}


def inline_sources():
    """source processes (backy-rbd, backy-file) run in this process (worker processes only)"""
    import importlib
    import subprocess
    real = subprocess.run

    def run(args, *a, **kw):
        name = os.path.basename(str(args[0])) if isinstance(args, (list, tuple)) else ""
        if name not in ("backy-rbd", "backy-file"):
            return real(args, *a, **kw)
        old = sys.argv
        sys.argv = [str(x) for x in args]
        try:
            importlib.import_module("backy." + name[6:]).main()
            rc = 0
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        finally:
            sys.argv = old
        if kw.get("check") and rc:
            raise subprocess.CalledProcessError(rc, args)
        return subprocess.CompletedProcess(args, rc, b"" if kw.get("capture_output") or kw.get("stdout") else None, None)

    subprocess.run = run

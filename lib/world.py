"""Stand-ins for backy's environment and reference helpers shared by the checks."""
import binascii
import contextlib
import datetime
import hashlib
import io
import json
import os
import shutil
import subprocess
import sys
import time
from pathlib import Path
from zoneinfo import ZoneInfo

import structlog

from lib.core import HarnessError, Violation, pattern

real_sleep = time.sleep
real_sync = os.sync
UTC = ZoneInfo("UTC")
C4 = 4 * 1024 * 1024


def _drop(logger, method, event):
    raise structlog.DropEvent


structlog.configure(
    processors=[_drop], wrapper_class=structlog.stdlib.BoundLogger,
    logger_factory=structlog.PrintLoggerFactory(open(os.devnull, "w")), cache_logger_on_first_use=False)

import backy.utils  # noqa: E402
from backy.repository import Repository  # noqa: E402
from backy.revision import Revision, Trust  # noqa: E402
from backy.schedule import Schedule  # noqa: E402

log = structlog.stdlib.get_logger()
_real_now = backy.utils.now


class Clock:
    """owns backy's idea of now"""

    def __init__(self):
        self.t = datetime.datetime(2024, 3, 1, 12, 0, 0, tzinfo=UTC)
        self.tick = datetime.timedelta(0)

    def now(self):
        t = self.t
        self.t = self.t + self.tick
        return t

    def advance(self, seconds):
        self.t += datetime.timedelta(seconds=seconds)


def install_clock():
    c = Clock()
    backy.utils.now = c.now
    return c


def restore_clock():
    backy.utils.now = _real_now


def fast_environment():
    """no real sleeping or syncing (worker processes only)"""
    time.sleep = lambda s: None
    os.sync = lambda: None


DEFAULT_SCHEDULE = {"daily": {"interval": "1d", "keep": 5}, "weekly": {"interval": "7d", "keep": 3}}


def schedule(conf=None):
    s = Schedule()
    s.configure(conf or DEFAULT_SCHEDULE)
    return s


def repo(path, conf=None):
    r = Repository(Path(path), schedule(conf), log)
    r.connect()
    return r


def read_rev_files(path):
    """independent look at the metadata on disk: {uuid: dict}"""
    import yaml
    out = {}
    for f in sorted(Path(path).glob("*.rev")):
        if f.is_symlink():
            continue
        with open(f, encoding="utf-8") as fh:
            d = yaml.load(fh, Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader))
        if not isinstance(d, dict):
            raise Violation(f"metadata file {f.name} is not readable: {d!r}")
        d.pop("parent", None)  # derived, for old versions only
        out[d["uuid"]] = d
    return out


def tree(path, contents=True, skip=()):
    """{relative path: digest or link or 'dir'} of a directory"""
    out = {}
    path = str(path)
    for root, dirs, files in os.walk(path):
        for d in dirs:
            p = os.path.join(root, d)
            out[os.path.relpath(p, path)] = ("link", os.readlink(p)) if os.path.islink(p) else ("dir",)
        for f in files:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, path)
            if rel in skip:
                continue
            if os.path.islink(p):
                out[rel] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as fh:
                    out[rel] = ("file", hashlib.blake2b(fh.read(), digest_size=8).hexdigest()) if contents else ("file",)
    return out


def tree_diff(a, b):
    r = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            r.append(f"{k}: {a.get(k)} -> {b.get(k)}")
    return "; ".join(r[:8])


LOCKFILES = (".backup", ".purge")


# ---------------------------------------------------------------- store format

def chunk_files(path):
    """{hash: path} of all chunk files of a repository"""
    out = {}
    for p in Path(path).glob("chunks/*/*.chunk.lzo"):
        out[p.name.removesuffix(".chunk.lzo")] = p
    return out


def mapping_of(path, uuid):
    """(mapping {int: hash}, size) read from the documented on-disk format"""
    with open(Path(path) / uuid) as f:
        d = json.load(f)
    return {int(k): v for k, v in d["mapping"].items()}, d["size"]


def chunk_content(p):
    """(ok, data) - independent check of a chunk file against its name"""
    import lzo
    import mmh3
    want = Path(p).name.removesuffix(".chunk.lzo")
    try:
        data = lzo.decompress(Path(p).read_bytes())
    except Exception:
        return False, None
    h = binascii.hexlify(mmh3.hash_bytes(data)).decode("ascii")
    return h == want, data


# ---------------------------------------------------------------- fake Ceph

VERSIONS = {
    "nautilus": ("ceph version 14.2.22 (ca74598065096e6fcbd8433c8779a2be0c889351) nautilus (stable)", 1),
    "luminous": ("ceph version 12.2.13 (584a20eb0237c657dc0567da126be145106aa47e) luminous (stable)", 0),
    "jewel": ("ceph version Development (no_version)", 0),
}


class Ceph:
    """state directory of the fake `rbd` command"""

    def __init__(self, root):
        self.root = Path(root)
        self.root.mkdir(parents=True, exist_ok=True)
        self.cfg = {"gran": 65536, "zmode": 1, "redundant": 0, "seed": 1, "maxw": 0}
        self.faults = []
        self.version = "nautilus"
        self.write_cfg()

    def use(self):
        os.environ["FAKE_RBD"] = str(self.root)

    def write_cfg(self):
        lines = [f"{k} {v}" for k, v in self.cfg.items() if v is not None]
        v, lst = VERSIONS[self.version]
        lines += [f"version {v}", f"showlist {lst}"] + self.faults
        tmp = self.root / "cfg.tmp"
        tmp.write_text("\n".join(lines) + "\n")
        os.rename(tmp, self.root / "cfg")

    def set(self, **kw):
        for k, v in kw.items():
            if k == "version":
                self.version = v
            else:
                self.cfg[k] = v
        self.write_cfg()

    def set_faults(self, lines):
        self.faults = list(lines)
        self.write_cfg()

    def reset_log(self):
        try:
            os.unlink(self.root / "log")
        except FileNotFoundError:
            pass

    def log(self):
        try:
            return [l.rstrip("\n").split("\t", 1) for l in open(self.root / "log")]
        except FileNotFoundError:
            return []

    def image(self, pool, name, content=b""):
        d = self.root / pool / name
        (d / "snap").mkdir(parents=True, exist_ok=True)
        (d / "head").write_bytes(content)
        return Image(self, pool, name)

    def maps(self):
        d = self.root / "maps"
        return sorted(p.name for p in d.iterdir()) if d.exists() else []

    def clear_maps(self):
        shutil.rmtree(self.root / "maps", ignore_errors=True)


class Image:
    def __init__(self, ceph, pool, name):
        self.ceph, self.pool, self.name = ceph, pool, name
        self.dir = ceph.root / pool / name

    @property
    def content(self):
        return (self.dir / "head").read_bytes()

    @property
    def size(self):
        return os.stat(self.dir / "head").st_size

    def write(self, off, data):
        with open(self.dir / "head", "r+b") as f:
            f.seek(off)
            f.write(data)

    def resize(self, n):
        with open(self.dir / "head", "r+b") as f:
            f.truncate(n)

    def snaps(self):
        return sorted(p.name for p in (self.dir / "snap").iterdir() if ".tmp" not in p.name)

    def snap_content(self, name):
        return (self.dir / "snap" / name).read_bytes()

    def snap_create(self, name):
        (self.dir / "snap" / name).write_bytes(self.content)

    def snap_rm(self, name):
        (self.dir / "snap" / name).unlink()

    def protect(self, name, on=True):
        d = self.dir / "protected"
        d.mkdir(exist_ok=True)
        if on:
            (d / name).touch()
        else:
            (d / name).unlink(missing_ok=True)

    def protected(self, name):
        return (self.dir / "protected" / name).exists()


def rbd_source(repository, pool="rbd", image="img", **kw):
    from backy.rbd import CephRBD, RBDSource
    return RBDSource(repository, CephRBD(pool, image, log, **kw), log)


def new_revision(r, tags=("daily",)):
    rev = Revision.create(r, set(tags), log)
    rev.materialize()
    r.scan()
    return r.find_by_uuid(rev.uuid)


def rbd_backup(path, tags=("daily",), conf=None, pool="rbd", image="img", clean=True, via=None, **kw):
    """what the backup command and its source process do, with fresh objects as in new processes.
    Returns (success, uuid); exceptions propagate after the clean-up."""
    r = repo(path, conf)
    if clean:
        r._clean()
    rev = Revision.create(r, set(tags), log)
    rev.materialize()
    try:
        if via:
            src, r2 = via, via.repository
            r2.scan()
        else:
            r2 = repo(path, conf)
            src = rbd_source(r2, pool, image, **kw)
        ok = src.backup(r2.find_by_uuid(rev.uuid))
        return ok, rev.uuid
    finally:
        if clean:
            r3 = repo(path, conf)
            r3._clean()


def restore_file(path, uuid, target, conf=None):
    from backy.rbd import RBDRestoreArgs, RestoreBackend
    r = repo(path, conf)
    src = rbd_source(r)
    src.restore(r.find_by_uuid(uuid), RBDRestoreArgs(str(target), RestoreBackend.PYTHON))


def restore_bytes(path, uuid, scratch, conf=None):
    t = os.path.join(str(scratch), f"restore-{uuid}")
    try:
        restore_file(path, uuid, t, conf)
        with open(t, "rb") as f:
            return f.read()
    finally:
        try:
            os.unlink(t)
        except FileNotFoundError:
            pass


def read_all(path, uuid, conf=None):
    """content of a revision through the file interface"""
    r = repo(path, conf)
    src = rbd_source(r)
    with src.open(r.find_by_uuid(uuid)) as f:
        return f.read()


@contextlib.contextmanager
def captured_fd1():
    """what is written to file descriptor 1 meanwhile"""
    sys.stdout.flush()
    import tempfile
    box = io.BytesIO()
    with tempfile.TemporaryFile(dir=os.getcwd()) as tmp:
        saved = os.dup(1)
        os.dup2(tmp.fileno(), 1)
        try:
            yield box
        finally:
            sys.stdout.flush()
            os.dup2(saved, 1)
            os.close(saved)
            tmp.seek(0)
            box.write(tmp.read())
            box.seek(0)


def fast_yaml():
    """libyaml (worker processes only)"""
    import yaml
    yaml.SafeLoader, yaml.SafeDumper = getattr(yaml, "CSafeLoader", yaml.SafeLoader), getattr(yaml, "CSafeDumper", yaml.SafeDumper)
    yaml.safe_load.__globals__.update(SafeLoader=yaml.SafeLoader, SafeDumper=yaml.SafeDumper)


def quiet_main():
    """entry points set up logging to files; keep it silent (worker processes only)"""
    import backy.logging
    backy.logging.init_logging = lambda *a, **kw: None

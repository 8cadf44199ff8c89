"""C11 Completed revisions and metadata survive power loss."""
import datetime
import json
import os
import shutil
import signal
import subprocess
import time

import yaml
from hypothesis import strategies as st

from lib import gen, hist
from lib.core import Campaign, Info, Skip, Violation, check
from lib.fsmon import Monitor, fork_run
from lib.world import C4, install_clock, log, quiet_main, rbd_backup, rbd_source, repo, restore_clock

PROP = "C11"
TECHNIQUE = ("property-based testing with a durability model: every file system effect of generated operations is observed (interposed C library calls), "
             "only fsync/sync make file content durable, and the invariant is checked at every instant")
LEVEL = "exploration"
NOTE = ("all prefixes of the effects of 1-5 operations per case; image sizes up to ~9 MiB, RBD and file sources, failing backups in between; "
        "up to three power losses in a row, five kinds of damage to what is not synchronised")
ASSUMPTIONS = ["renames and other directory operations reach the disk in order (journalling file system); file content only when synchronised",
               "data written through the page cache by other processes is not modelled"]


def worker_init(env):
    time.sleep = lambda s: None
    quiet_main()


op = st.one_of(
    st.tuples(st.just("backup"), st.lists(hist.guest, max_size=2), st.one_of(
        st.none(), st.none(), st.tuples(st.sampled_from(["export", "export-diff", "map", "unmap", "snap-ls"]), st.sampled_from(["exit", "trunc"]), st.integers(0, 9 << 20)))),
    st.tuples(st.just("backup"), st.lists(hist.guest, max_size=2), st.none()),
    st.tuples(st.just("tags"), st.sampled_from(["set", "add", "remove"]), st.sampled_from([["daily"], ["weekly"], ["daily", "weekly"]]), st.booleans()),
    st.tuples(st.just("distrust"), st.integers(0, 3)),
    st.tuples(st.just("verify"), st.integers(0, 3)),
    st.tuples(st.just("expire"), st.integers(0, 30)),
    st.tuples(st.just("rm"), st.integers(0, 3)),
    st.tuples(st.just("config"), st.integers(0, 5)),
    st.tuples(st.just("report"), st.integers(1, 5000), st.integers(0, 5)),
    st.tuples(st.just("gc")),
    st.tuples(st.just("mismatch"), st.integers(0, 1 << 20)),
)
case = st.fixed_dictionaries({
    "img": hist.image,
    "ops": st.lists(op, min_size=2, max_size=6),
})


class Durable:
    """what is on disk if the power goes now"""

    def __init__(self, path):
        self.path = os.path.realpath(path)
        self.dirty = set()
        self.entries = set()  # names whose directory entry may still be lost
        self.cache = {}
        self.events = 0
        self.checks = 0
        self.before = {}
        self.problem = None
        self.must = set()
        self.what = ""
        self.kind = "rbd"

    def ino(self, p):
        st = os.lstat(p)
        return st.st_dev, st.st_ino

    def event(self, kind, phase, a, b, size):
        if phase == 0:
            self.inspect(f"before {kind} of {os.path.basename(a) or 'everything'}")
            return 0
        self.events += 1
        if kind in ("write", "create", "trunc", "ftruncate"):
            try:
                self.dirty.add(self.ino(a))
            except FileNotFoundError:
                pass  # already unlinked
        elif kind == "fsync":
            self.dirty.discard(self.ino(a))
        elif kind == "sync":
            self.dirty.clear()
            self.entries.clear()
        elif kind == "rename":
            self.entries.add(b)
        return 0

    def clean(self, p):
        return self.ino(p) not in self.dirty

    def load(self, p):
        s = os.stat(p)
        k = (s.st_ino, s.st_mtime_ns, s.st_size)
        if self.cache.get(p, (None,))[0] != k:
            with open(p, encoding="utf-8") as f:
                self.cache[p] = (k, yaml.safe_load(f))
        return self.cache[p][1]

    def inspect(self, when):
        if self.problem:
            return
        self.checks += 1
        try:
            self._inspect()
        except Violation as e:
            self.problem = f"{self.what}, {when}: {e}"
        except Exception as e:
            self.problem = f"{self.what}, {when}: {type(e).__name__}: {e}"

    def _inspect(self):
        names = os.listdir(self.path)
        for n in self.must:
            check(n in names, f"{n} does not exist at that moment")
        for n in names:
            p = os.path.join(self.path, n)
            if os.path.islink(p):
                continue
            if n == "config" or n.endswith(".rev"):
                check(self.clean(p), f"{n} is visible but its content has not been synchronised")
            if n == "config":
                check(isinstance(self.load(p), dict), "config is not complete")
            if n.endswith(".rev"):
                d = self.load(p)
                check(isinstance(d, dict) and "uuid" in d, f"{n} is not complete")
                if "duration" in d.get("stats", {}) and not d.get("server"):
                    data = os.path.join(self.path, d["uuid"])
                    check(self.clean(data), f"revision {d['uuid']} counts as complete but its {'mapping' if self.kind == 'rbd' else 'data'} has not been synchronised")
                    if self.kind == "rbd":
                        with open(data) as f:
                            m = json.load(f)["mapping"]
                        for h in m.values():
                            c = os.path.join(self.path, "chunks", h[:2], h + ".chunk.lzo")
                            check(self.clean(c), f"revision {d['uuid']} counts as complete but its chunk {h} has not been synchronised")
        q = os.path.join(self.path, "quarantine")
        for root, _, files in os.walk(q):
            for n in files:
                if n.endswith(".report") or (os.path.basename(root) == "chunks" and not n.startswith("tmp")):
                    check(self.clean(os.path.join(root, n)), f"quarantine file {n} is visible but has not been synchronised")
                if n.endswith(".report"):
                    check(isinstance(self.load(os.path.join(root, n)), dict), f"report {n} is not complete")

    def run(self, what, fn, removes=False):
        self.what = what
        names = [n for n in os.listdir(self.path) if n == "config" or n.endswith(".rev")]
        self.must = set() if removes else set(names)
        with Monitor(self.path, self.event):
            try:
                r = fn()
            except Exception as e:
                if "injected" not in what:
                    raise
                r = None
            self.inspect("at the end")
        if self.problem:
            raise Violation(self.problem)
        return r


def run_case(case, env):
    w = hist.World(env.dir(), case["img"])
    clock = install_clock()
    clock.tick = datetime.timedelta(seconds=1)
    try:
        return go(case, w, clock)
    finally:
        restore_clock()


def go(case, w, clock):
    from backy.report import ChunkMismatchReport
    from backy.schedule import Schedule
    from backy.source import CmdLineSource
    os.makedirs(w.path)
    d = Durable(w.path)
    labels = set()
    done = 0

    def store(keep):
        conf = {"daily": {"interval": "1d", "keep": 3 + keep}, "weekly": {"interval": "7d", "keep": 2}}
        s = Schedule()
        s.configure(conf)
        from backy.repository import Repository
        from pathlib import Path
        try:
            CmdLineSource(Repository(Path(w.path), s, log), {"type": "rbd", "pool": "rbd", "image": "img", "n": keep}, log).store()
        except ValueError:
            pass  # not changed
    for o in [["backup", [], None]] + case["ops"]:
        k = o[0]
        clock.advance(3600)
        own = [u for u, r in sorted(w.complete().items()) if not r["server"]]
        if k == "backup":
            for g in o[1]:
                w.guest(g)
            if o[2]:
                w.ceph.reset_log()
                w.ceph.set_faults([f"faultcmd {o[2][0]} 0 {o[2][1]} {o[2][2] if o[2][1] == 'trunc' else 1}"])
                labels.add("failing-backup")
            r = d.run("backup" + (f" with injected {o[2]}" if o[2] else ""), lambda: w.backup(must=False), removes=True)
            w.ceph.set_faults([])
            if r and r[0]:
                check(not any(e.endswith(f"/{r[1]}.rev") for e in d.entries),
                      f"backup {r[1]} is reported as successful but nothing has been synchronised since its completion was recorded")
        elif k == "tags":
            d.run("tags", lambda: repo(w.path).tags(o[1], "all", set(o[2]), autoremove=o[3]), removes=o[3])
        elif k == "distrust" and own:
            d.run("distrust", lambda: (lambda r: r.distrust([r.find_by_uuid(own[o[1] % len(own)])]))(repo(w.path)))
        elif k == "verify" and own:
            d.run("verify", lambda: (lambda r: rbd_source(r).verify(r.find_by_uuid(own[o[1] % len(own)])))(repo(w.path)))
        elif k == "expire":
            clock.advance(86400 * o[1])
            d.run("expire", lambda: repo(w.path).expire(), removes=True)
        elif k == "rm" and own:
            d.run("rm", lambda: (lambda r: r.rm([r.find_by_uuid(own[o[1] % len(own)])]))(repo(w.path)), removes=True)
        elif k == "config":
            d.run("config", lambda: store(o[1]))
        elif k == "report":
            d.run("report", lambda: repo(w.path).add_report(ChunkMismatchReport(b"a" * o[1], b"b" * o[2], C4)))
        elif k == "gc":
            d.run("gc", lambda: rbd_source(repo(w.path)).gc())
        elif k == "mismatch" and 0 < w.img.size <= C4:
            w.ceph.set(mutate=f"{o[1] % w.img.size} 255 1 -1")
            d.run("backup that differs from its source, injected", lambda: w.backup(must=False), removes=True)
            w.ceph.set(mutate=None)
            labels.add("mismatch")
        else:
            continue
        labels.add(k)
        done += 1
    return Info(d.events > 5 and bool(w.complete()) and done > 1, labels, {"ops": case["ops"], "effects": d.events, "instants checked": d.checks})


def run_file(case, env):
    """the plain file source"""
    from backy.file import FileSource
    from backy.revision import Revision
    base = env.dir()
    path = os.path.join(base, "vm")
    os.makedirs(path)
    src = os.path.join(base, "source")
    d = Durable(path)
    d.kind = "file"
    clock = install_clock()
    clock.tick = datetime.timedelta(seconds=1)
    try:
        for size in case["sizes"]:
            with open(src, "wb") as f:
                f.write(os.urandom(1) * size)

            def backup():
                from pathlib import Path
                r = repo(path)
                rev = Revision.create(r, {"daily"}, log)
                rev.materialize()
                return FileSource(r, Path(src)).backup(rev)
            d.run("file backup", backup)
    finally:
        restore_clock()
    return Info(len(case["sizes"]) > 0, ["file"])


class Power:
    """the power goes before the n-th effect; says which files had not been synchronised"""

    def __init__(self, at, out):
        self.at, self.out = at, out
        self.n = 0
        self.dirty = set()
        self.risky = []  # instants at which something is not synchronised

    def __call__(self, kind, phase, a, b, size):
        if phase == 1:
            if kind in ("write", "create", "trunc", "ftruncate", "fsync"):
                try:
                    st = os.lstat(a)
                except FileNotFoundError:
                    return 0
                (self.dirty.discard if kind == "fsync" else self.dirty.add)(st.st_ino)
            elif kind == "sync":
                self.dirty.clear()
        elif kind not in ("utime", "mkdir"):
            if self.n == self.at:
                self.dump()
                os.kill(os.getpid(), signal.SIGKILL)
            if self.dirty:
                self.risky.append(self.n)
            self.n += 1
        return 0

    def dump(self):
        with open(self.out, "w") as f:
            json.dump(sorted(self.dirty), f)


LOSS = ["keep", "empty", "half", "zero", "tail"]
frac = st.one_of(st.integers(0, 999), st.sampled_from([601, 901, 991, 999]))
pop = st.one_of(
    st.tuples(st.just("backup"), st.lists(hist.guest, max_size=2)), st.tuples(st.just("backup"), st.lists(hist.guest, max_size=2)),
    st.tuples(st.just("failing"), st.lists(hist.guest, max_size=1), st.sampled_from(["export", "export-diff", "map", "snap-ls"]), st.integers(0, 9 << 20)),
    st.tuples(st.just("gc")), st.tuples(st.just("rm"), st.integers(0, 2)), st.tuples(st.just("verify"), st.integers(0, 2)), st.tuples(st.just("distrust"), st.integers(0, 2)),
)
pcase = st.fixed_dictionaries({
    "img": hist.image,
    "before": st.lists(st.lists(hist.guest, max_size=2), max_size=2),
    "rounds": st.lists(st.tuples(pop, st.one_of(frac, frac, frac, st.none()), st.sampled_from(LOSS + ["mixed", "empty", "empty"]), st.integers(0, 1 << 16)), min_size=1, max_size=3),
    "last": st.lists(hist.guest, max_size=1),
})


def lose(path, dirty, how, seed):
    """unsynchronised contents -> number of damaged files"""
    n = 0
    for root, dirs, files in os.walk(path):
        dirs.sort()
        for name in sorted(files):
            p = os.path.join(root, name)
            st = os.lstat(p)
            if st.st_ino not in dirty or not st.st_size:
                continue
            h = how if how != "mixed" else LOSS[(seed + n * 7919) % len(LOSS)]
            n += 1
            with open(p, "r+b") as f:
                if h in ("empty", "zero"):
                    f.truncate(0)
                    if h == "zero":
                        f.truncate(st.st_size)
                elif h == "half":
                    f.truncate(st.st_size // 2)
                elif h == "tail":
                    f.truncate(st.st_size // 2)
                    f.truncate(st.st_size)
    return n


def run_power(case, env):
    w = hist.World(env.dir(), case["img"])
    clock = install_clock()
    clock.tick = datetime.timedelta(seconds=1)
    try:
        return power(case, w, clock, env)
    finally:
        restore_clock()


def power(case, w, clock, env):
    labels = set()
    for g in case["before"]:
        for o in g:
            w.guest(o)
        clock.advance(86400)
        w.backup()
    save = w.d + ".save"
    env.dirs.append(save)
    out = os.path.join(w.d, "dirty")
    hit = 0
    for o, at, how, seed in case["rounds"]:
        clock.advance(3600)
        k = o[0]
        own = [u for u in w.order if u in w.model]
        lines = []
        if k in ("backup", "failing"):
            for g in o[1]:
                w.guest(g)
            if k == "failing":
                lines = [f"faultcmd {o[2]} 0 trunc {o[3]}" if o[2].startswith("export") else f"faultcmd {o[2]} 0 exit 1"]
        elif k != "gc":
            if not own:
                continue
            u = own[o[1] % len(own)]
        os.makedirs(w.path, exist_ok=True)

        def perform():
            if k in ("backup", "failing"):
                try:
                    rbd_backup(w.path)
                except Exception:
                    if k == "backup":
                        raise
                return
            r = repo(w.path)
            if k == "gc":
                rbd_source(r).gc()
            elif k == "rm":
                r.rm([r.find_by_uuid(u)])
            elif k == "verify":
                rbd_source(r).verify(r.find_by_uuid(u))
            else:
                r.distrust([r.find_by_uuid(u)])

        def attempt(at):
            w.ceph.reset_log()
            w.ceph.set_faults(lines)
            p = Power(at, out)

            def child():
                with Monitor(w.path, p):
                    perform()
                p.dump()
                return p.n, p.risky
            res = fork_run(child)
            w.ceph.set_faults([])
            return res
        if at is not None:
            shutil.rmtree(save, ignore_errors=True)
            subprocess.run(["cp", "-a", w.d, save], check=True)
            res = attempt(None)
            if res[0] != "ok":
                raise Violation(f"undisturbed {k} failed: {res[1]}")
            n, risky = res[1]
            at = risky[at * len(risky) // 1000] if risky and at % 8 else at * n // 1000
            shutil.rmtree(w.d)
            os.rename(save, w.d)
        res = attempt(at)
        what = f"power loss at {at} of {k}"
        if res[0] == "exc":
            raise Violation(f"{what}: failed: {res[1]}")
        if res == ("killed", signal.SIGALRM):
            raise Violation(f"{what}: does not end")
        with open(out) as f:
            dirty = set(json.load(f))
        n = lose(w.path, dirty, how, seed)
        hit += bool(n)
        labels.add(f"{k}: {'lost data' if n else 'nothing lost'}")
        now = w.complete()
        for u in set(w.model) - set(now):
            check(k == "rm", f"{what}: revision {u} is gone")
            del w.model[u]
        for u in set(now) - set(w.model):
            check(k in ("backup", "failing"), f"{what}: a revision {u} appeared")
            w.model[u] = w.img.content
            w.order.append(u)
        w.check_restores(what)
    for g in case["last"]:
        w.guest(g)
    clock.advance(3600)
    os.makedirs(w.path, exist_ok=True)
    try:
        w.backup()
    except Violation as e:
        raise Violation(f"first backup when the power is back: {e}")
    w.check_restores("after the first backup when the power is back")
    rbd_source(repo(w.path)).gc()
    w.check_restores("after the garbage collection when the power is back")
    return Info(hit > 0, labels)


CAMPAIGNS = [
    Campaign("power", pcase, run_power, "unsynchronised data was lost", batch=12, weight=3),
    Campaign("durability", case, run_case, "effects were observed and a complete revision exists", batch=15, weight=4),
    Campaign("file", st.fixed_dictionaries({"sizes": st.lists(st.integers(0, 300000), min_size=1, max_size=3)}), run_file, "a file backup was made", batch=15),
]

"""C12 Conflicting operations on one repository never overlap."""
import asyncio
import datetime
import errno
import fcntl
import os
import shutil
import threading
import types
from pathlib import Path

from hypothesis import strategies as st

from lib import hist, meta
from lib.core import Campaign, HarnessError, Info, Violation, check, pattern
from lib.fsmon import Monitor
from lib.vloop import Daemons
from lib.world import (C4, UTC, Ceph, Image, chunk_files, fast_environment, install_clock, log, new_revision, quiet_main, rbd_source, read_rev_files,
                       repo, restore_clock, tree, tree_diff)

PROP = "C12"
TECHNIQUE = ("schedule exploration with generated pairs of operations: the second operation runs at a generated file-system event, lock call or "
             "await point of the first, against exclusion rules and a serial-equivalence oracle; injected failures and cancellations")
LEVEL = "exploration"
QUICK = 70
NOTE = "two to three operations per case, second one atomic; rbd and file sources, same and separate handles, lock holders outside, command line and asynchronous operations"
ASSUMPTIONS = ["locks are flock(2) locks on .backup and .purge as used by backy-extract, too"]

EX = ("backup", "rm", "expire", "tags", "distrust", "clean")
PURGE = ("backup", "restore", "verify")
SCHEDULE = {"daily": {"interval": "1d", "keep": 1}, "weekly": {"interval": "7d", "keep": 1}}
SIZE = C4 + 70000


def worker_init(env):
    fast_environment()
    quiet_main()
    meta.inline_sources()


opt = st.one_of(
    st.tuples(st.sampled_from(["rm", "distrust", "verify", "restore"]), st.integers(0, 4)),
    st.tuples(st.just("tags"), st.integers(0, 4), st.sampled_from(["set", "add", "remove"]), st.sampled_from([["manual:x"], ["daily"], ["manual:y", "weekly"], []])),
    st.tuples(st.sampled_from(["backup", "gc", "expire", "clean"])),
)
template = st.sampled_from([{"kind": k, "distrusted": d, "broken": b, "gone": g} for k, d, b, g in [
    ("rbd", None, None, None), ("rbd", None, None, 0), ("rbd", 1, None, 0), ("rbd", 2, None, 1), ("rbd", None, 1, 0), ("rbd", 2, 2, 0),
    ("file", None, None, 0), ("file", 1, None, None)]])
case = st.fixed_dictionaries({
    "t": template, "a": opt, "b": st.lists(opt, min_size=1, max_size=2),
    "point": st.one_of(st.integers(-1, 3), st.integers(-1, 120)), "same": st.booleans(),
    "fault": st.one_of(st.none(), st.none(), st.none(), st.sampled_from([errno.EIO, errno.ENOSPC, errno.EACCES])),
})
BASE = datetime.datetime(2024, 3, 1, 12, 0, tzinfo=UTC)
_templates = {}


class W:
    """a copy of a template: three finished backups, one about to be made, an old unfinished one, one of a peer"""

    def __init__(self, d, t):
        self.d, self.t = d, t
        self.path = os.path.join(d, "vm")
        self.kind = t["kind"]

    def make(self):
        t = self.t
        os.makedirs(self.d)
        clock = install_clock()
        try:
            clock.t = BASE - datetime.timedelta(days=40)
            self.ceph = Ceph(os.path.join(self.d, "ceph"))
            self.ceph.use()
            self.img = self.ceph.image("rbd", "img", pattern(2, 1, 50000) + bytes(SIZE - 50000))
            r = repo(self.path, SCHEDULE)
            self.model, self.order = {}, []
            for i in range(3):
                self.img.write(i * 20000, pattern(2, 10 + i, 30000))
                if i == 1:
                    self.img.write(C4 + 5, pattern(2, 20, 500))
                Path(self.d, "source").write_bytes(self.img.content)
                r = repo(self.path, SCHEDULE)
                rev = new_revision(r, ("daily", "weekly"))
                check(self.source(r).backup(rev) is True, "backup while preparing failed")
                self.model[rev.uuid] = self.img.content
                self.order.append(rev.uuid)
                clock.advance(86400 * 3)
            revs = read_rev_files(self.path)
            if t["gone"] is not None:
                os.unlink(os.path.join(self.path, self.order[t["gone"]] + ".rev"))
            if t["distrusted"] is not None and t["distrusted"] != t["gone"]:
                d = dict(revs[self.order[t["distrusted"]]], trust="distrusted")
                os.chmod(os.path.join(self.path, d["uuid"] + ".rev"), 0o640)
                meta.write_rev(self.path, d)
            meta.write_rev(self.path, meta.record(1, meta.utc(BASE, 86400 * 9), ["daily"], server="peer"))
            self.peer = meta.uid(1)
            meta.write_rev(self.path, meta.record(2, meta.utc(BASE, 86400 * 20), ["daily"], complete=False))
            self.img.write(5000, pattern(2, 30, 40000))
            self.img.write(C4 + 100, pattern(2, 31, 4000))
            Path(self.d, "source").write_bytes(self.img.content)
            rev = new_revision(repo(self.path, SCHEDULE), ("daily",))
            self.pending = rev.uuid
            self.model[rev.uuid] = self.img.content
            self.targets = self.order + [self.peer, self.pending]
            if t["broken"] is not None and self.kind == "rbd":
                files = chunk_files(self.path)
                h = sorted(set(hist.mapping_of(self.path, self.order[t["broken"]])[0].values()))[0]
                os.chmod(files[h], 0o640)
                files[h].write_bytes(b"broken")
        finally:
            restore_clock()

    def copy(self, d):
        w = W(d, self.t)
        shutil.copytree(self.d, d, symlinks=True)
        w.model, w.order, w.pending, w.targets, w.peer = self.model, self.order, self.pending, self.targets, self.peer
        w.ceph = Ceph(os.path.join(d, "ceph"))
        w.img = Image(w.ceph, "rbd", "img")
        meta.write_config(w.path, SCHEDULE, {"type": "rbd", "pool": "rbd", "image": "img"} if self.kind == "rbd"
                          else {"type": "file", "filename": os.path.join(d, "source")})
        return w

    def source(self, r):
        if self.kind == "rbd":
            return rbd_source(r)
        from backy.file import FileSource
        return FileSource(r, Path(self.d) / "source")


class Op:
    """an operation: the handle is opened and revisions are looked up first, as commands do"""
    serial = 0

    def __init__(self, w, o, handle=None):
        self.w, self.o = w, o
        Op.serial += 1
        self.target = os.path.join(w.d, f"target{Op.serial}")
        self.error = self.result = None
        try:
            self.repo = handle or repo(w.path, SCHEDULE)
            self.src = w.source(self.repo)
            self.rev = None
            if o[0] in ("rm", "distrust", "verify", "restore", "tags"):
                self.uuid = w.targets[o[1] % 4] if o[0] in ("rm", "distrust", "tags") else w.order[o[1] % 3]
                if o[0] != "tags":
                    self.rev = self.repo.find_by_uuid(self.uuid)
            elif o[0] == "backup":
                self.uuid = w.pending
                self.rev = self.repo.find_by_uuid(w.pending)
        except Exception as e:
            self.error = e
        self.unprepared = self.error is not None

    def run(self):
        if self.error:
            return self
        o = self.o
        try:
            self.result = self._run(o)
        except Exception as e:
            self.error = e
        return self

    def _run(self, o):
        if o[0] == "rm":
            return self.repo.rm([self.rev])
        if o[0] == "distrust":
            return self.repo.distrust([self.rev])
        if o[0] == "tags":
            return self.repo.tags(o[2], self.uuid, set(o[3]))
        if o[0] == "expire":
            self.repo.expire()
        elif o[0] == "clean":
            return self.repo._clean()
        elif o[0] == "gc":
            return self.src.gc()
        elif o[0] == "verify":
            return self.src.verify(self.rev)
        elif o[0] == "backup":
            return bool(self.src.backup(self.rev))
        elif o[0] == "restore":
            if self.w.kind == "rbd":
                from backy.rbd import RBDRestoreArgs, RestoreBackend
                self.src.restore(self.rev, RBDRestoreArgs(self.target, RestoreBackend.PYTHON))
            else:
                from backy.file import FileRestoreArgs
                self.src.restore(self.rev, FileRestoreArgs(Path(self.target)))
            return Path(self.target).read_bytes() == self.w.model[self.uuid]
        return None

    @property
    def outcome(self):
        return (type(self.error).__name__ if self.error else "ok", self.result)

    @property
    def refused(self):
        return isinstance(self.error, BlockingIOError) or isinstance(self.error, RuntimeError) and "re-entrant" in str(self.error)


def state(w):
    """the observable metadata"""
    return {u: (sorted(d.get("tags", [])), d.get("trust"), d.get("server"), "duration" in d["stats"], sorted(d.get("orig_tags", [])))
            for u, d in read_rev_files(w.path).items()}


def repo_tree(w):
    return {k: v for k, v in tree(w.path).items() if k not in (".backup", ".purge", "backy.log")}


def locks_free(w, what):
    for name in (".backup", ".purge"):
        p = os.path.join(w.path, name)
        if os.path.exists(p):
            with open(p) as f:
                try:
                    fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                except BlockingIOError:
                    raise Violation(f"{what}: {name} is still locked")


def get_template(env, t):
    key = repr(sorted(t.items(), key=str))
    if key not in _templates:
        w = W(os.path.join(env.base, f"template{len(_templates)}"), t)
        w.make()
        _templates[key] = w
    return _templates[key]


IGNORED = ("lock", "unlock", "sync", "utime")


def effects(kind, path, w, op, other):
    """does this event belong to the part of the operation that excludes the other one?"""
    rel = os.path.relpath(path, w.path)
    if kind in IGNORED or os.path.basename(path) in (".backup", ".purge"):
        return False
    inside = not rel.startswith("..")
    chunk = rel.startswith("chunks/") and rel.endswith(".lzo")
    if op[0] in EX and other in EX:
        return inside and kind != "ropen"
    if op[0] == "backup":  # against garbage collection: from the first data to the completed revision
        return inside and kind not in ("ropen", "unlink", "rmdir") and (rel.startswith("chunks/") or rel.startswith(w.pending))
    if op[0] == "gc":
        return inside and kind != "ropen"
    if op[0] == "verify":
        return kind == "ropen" and chunk
    if op[0] == "restore":
        return (kind == "ropen" and (chunk or w.kind == "file" and inside and rel in w.model)) or (not inside and "target" in rel and kind in ("write", "create", "trunc"))
    return False


def conflicting(a, b):
    return a in EX and b in EX or a == "gc" and b in PURGE or b == "gc" and a in PURGE


def run_case(case, env):
    t = dict(case["t"])
    ops = [case["a"][0]] + [b[0] for b in case["b"]]
    if "backup" in ops:
        t["broken"] = None
    base = get_template(env, t)
    d = env.dir()
    clock = install_clock()
    clock.t = BASE
    clock.tick = datetime.timedelta(seconds=1)
    try:
        return go(case, base, d, env)
    finally:
        restore_clock()


def dry(base, d, ops):
    """serial execution; -> state, outcomes, number of events of the first"""
    w = base.copy(d)
    w.ceph.use()
    out, n = [], 0
    for i, o in enumerate(ops):
        op = Op(w, o)
        box = [0]

        def fn(kind, phase, a, b, size):
            if phase == 0:
                box[0] += 1
            return 0
        with Monitor(w.d, fn, extra=True):
            op.run()
        out.append(op.outcome)
        if i == 0:
            n = box[0]
    s = state(w)
    shutil.rmtree(d)
    return s, out, n


def go(case, base, d, env):
    a, bs, labels = case["a"], case["b"][:1], set()
    nested = case["b"]
    _, alone, n = dry(base, os.path.join(d, "n"), [a])
    point = -1 if case["point"] < 0 else case["point"] % (n + 1)
    w = base.copy(os.path.join(d, "x"))
    w.ceph.use()
    op = Op(w, a)
    what = f"{a} with {nested} at event {point}/{n} of {base.t}"
    if case["fault"]:
        return fault(case, w, op, point, n, labels)
    me = threading.get_ident()
    events, done = [], []
    cur = {"i": 0}

    def b_at(i):
        for k, o in enumerate(nested):
            before = repo_tree(w)
            same = case["same"] and k == 0 and conflicting(a[0], o[0])
            b = Op(w, o, handle=op.repo if same else None)
            th = threading.Thread(target=b.run, daemon=True)
            th.start()
            th.join(0.25 if o[0] in PURGE and a[0] == "gc" or same else 5)
            waits = th.is_alive()
            done.append((o, b, th, waits, same))
            if waits:
                labels.add("waits")
                break  # the rest would run concurrently
            if b.refused:
                labels.add("refused")
                after = repo_tree(w)
                check(before == after, f"{what}: the refused operation changed something: {tree_diff(before, after)}")

    def fn(kind, phase, pa, pb, size):
        if phase or threading.get_ident() != me:
            return 0
        i = cur["i"]
        cur["i"] += 1
        if i == point:
            try:
                b_at(i)
            except Violation as e:
                cur["v"] = e
        events.append((kind, pa))
        if pb and pb != pa:
            events.append((kind, pb))
            if i < point:
                cur["extra"] = cur.get("extra", 0) + 1
        return 0

    if point < 0:
        b_at(-1)
    with Monitor(w.d, fn, extra=True):
        op.run()
    if "v" in cur:
        raise cur["v"]
    if point >= cur["i"] and not done:
        b_at(cur["i"])
    idx = max(point, 0) + cur.get("extra", 0)
    for o, b, th, waits, same in done:
        th.join(20)
        check(not th.is_alive(), f"{what}: {o} waits although the other operation is over")
        before = [e for e in events[:idx] if effects(e[0], e[1], w, a, o[0])]
        after = [e for e in events[idx:] if effects(e[0], e[1], w, a, o[0])]
        inside = before and after
        if conflicting(a[0], o[0]):
            if inside:
                labels.add(f"conflict-{a[0]}-{o[0]}")
            if waits:
                check(o[0] not in EX or o[0] == "backup" and a[0] == "gc" or same, f"{what}: {o} is not refused at once")
                check(o[0] != "gc", f"{what}: {o} is not refused at once")
            elif inside:
                check(b.refused or b.unprepared, f"{what}: {o} ran ({b.outcome}) between {before[-1]} and {after[0]} of the other operation")
        elif o[0] == "restore" and a[0] != "gc" and not same:
            # verifications and backups of distrusted repositories collect garbage in the end
            tail = a[0] in ("verify", "backup") and not any(e[0] == "ropen" and e[1].endswith(".lzo") for e in events[idx:])
            check(not waits or tail, f"{what}: restore waits")
            if "broken" not in base.t or base.t["broken"] is None:
                check(b.outcome == ("ok", True) or isinstance(b.error, IndexError), f"{what}: restore: {b.outcome} {b.error}")
    locks_free(w, what)
    final = state(w)
    ran = [(o, b) for o, b, th, waits, same in done if not b.refused and not b.unprepared]
    # serial equivalence; the mark a verification leaves in the end is not protected against simultaneous edits
    judged = len(ran) <= 1
    if ran and ran[0][0][0] == "verify" and a[0] in EX:
        judged = judged and not (idx and events[idx:])
    if a[0] == "verify" and ran and ran[0][0][0] in EX:
        judged = judged and any(e[0] == "ropen" and e[1].endswith(".lzo") for e in events[idx:])
    if judged:
        orders = {"A": [a]} if not ran else {"AB": [a, ran[0][0]], "BA": [ran[0][0], a]}
        res = {}
        for k, seq in orders.items():
            s, out, _ = dry(base, os.path.join(d, k), seq)
            res[k] = (s, out if k != "BA" else out[::-1])
        early = a[0] == "backup" and not any(effects(e[0], e[1], w, a, "expire") for e in events[:idx])

        def view(s):  # a backup that has been asked for is made even if its announcement is edited or vanishes before it starts
            return {u: v for u, v in s.items() if not (early and u == w.pending)}
        check(any(view(final) == view(s) for s, _ in res.values()),
              lambda: f"{what}: the result {diff(final, res)} is that of neither order; outcomes {op.outcome} {[b.outcome for o, b in ran]}")
        outs = [op.outcome] + [b.outcome for o, b in ran]
        check(any(outs == o for _, o in res.values()) or any(x[0] != "ok" for _, o in res.values() for x in o),
              lambda: f"{what}: outcomes {outs} {op.error!r} {[b.error for o, b in ran]} are those of neither order: {[o for _, o in res.values()]}")
    # every complete revision is usable
    if base.t["broken"] is None:
        for u, s in final.items():
            if s[3] and not s[2] and u in w.model:
                r = Op(w, ("restore", 0))
                r.error = None
                r.unprepared = False
                r.uuid, r.rev = u, repo(w.path, SCHEDULE).find_by_uuid(u)
                r.run()
                check(r.outcome == ("ok", True), f"{what}: revision {u} cannot be restored afterwards: {r.error!r}")
    # the handle can be used again
    for o in (("expire",), ("gc",)):
        r = Op(w, o, handle=op.repo)
        r.run()
        check(not r.refused, f"{what}: {o} with the same handle afterwards: {r.error!r}")
    return Info("refused" in labels or "waits" in labels or bool(ran) and 0 <= point < cur["i"], labels)


def diff(final, res):
    out = []
    for k, (s, _) in res.items():
        out.append(f"{k}: " + "; ".join(f"{u}: {final.get(u)} vs {s.get(u)}" for u in sorted(set(final) | set(s)) if final.get(u) != s.get(u)))
    return " / ".join(out)


def fault(case, w, op, point, n, labels):
    what = f"{case['a']} failing with errno {case['fault']} at event {point}/{n}"
    cur = [0]

    def fn(kind, phase, pa, pb, size):
        if phase:
            return 0
        i = cur[0]
        cur[0] += 1
        if i == point and kind not in ("sync", "unlock", "utime"):
            labels.add("fault-" + kind)
            return -case["fault"]
        return 0
    with Monitor(w.d, fn, extra=True):
        op.run()
    locks_free(w, what)
    for o in (("expire",), ("clean",), ("gc",)):
        r = Op(w, o, handle=op.repo)
        r.run()
        check(not r.refused, f"{what}: {o} with the same handle afterwards: {r.error!r}")
        locks_free(w, what)
    return Info(bool(labels), labels | {"failed" if op.error else "survived"})


# ---------------------------------------------------------------- locks held by others, commands

hold = st.sampled_from([[".backup", "x"], [".backup", "x"], [".purge", "s"], [".purge", "x"]])
command = st.sampled_from(["backup", "rm", "tags", "distrust", "expire", "clean", "gc", "verify", "restore",
                           "cli-backup", "cli-rm", "cli-tags", "cli-distrust", "cli-gc", "cli-verify", "cli-restore", "cli-expire"])
case2 = st.fixed_dictionaries({"t": template, "hold": hold, "op": command, "i": st.integers(0, 4)})


def run_held(case, env):
    t = dict(case["t"], broken=None)
    base = get_template(env, t)
    w = base.copy(os.path.join(env.dir(), "x"))
    w.ceph.use()
    clock = install_clock()
    clock.t = BASE
    name, mode = case["hold"]
    opn = case["op"].removeprefix("cli-")
    what = f"{case['op']} while {name} is held ({mode})"
    u = w.targets[case["i"] % 3] if opn in ("verify", "restore", "distrust") else w.targets[case["i"] % 4]
    if not os.path.exists(os.path.join(w.path, u + ".rev")):
        u = w.order[2]

    class Cli:
        error = None

        def run(self):
            argv = {"backup": ["backup", "manual:z"], "rm": ["rm", "-r", u], "tags": ["tags", "add", "-r", u, "manual:q"],
                    "distrust": ["distrust", "-r", u], "gc": ["gc"], "verify": ["verify", "-r", u],
                    "restore": ["restore", "-r", u] + (["rbd", "--backend", "python"] if w.kind == "rbd" else ["file"]) + [os.path.join(w.d, "target")],
                    "expire": ["gc", "--expire", "--local"]}[opn]
            self.rc, self.out, self.err = meta.cli(w.path, *argv)

        @property
        def refused(self):
            return self.rc != 0

    if case["op"].startswith("cli-"):
        op = Cli()
    else:
        i = w.targets.index(u)
        op = Op(w, {"tags": ("tags", i, "add", ["manual:q"])}.get(opn, (opn, i)))
    held = os.open(os.path.join(w.path, name), os.O_RDWR | os.O_CREAT, 0o644)
    fcntl.flock(held, fcntl.LOCK_EX if mode == "x" else fcntl.LOCK_SH)
    before = repo_tree(w)
    try:
        ex = opn in EX
        refuse = name == ".backup" and ex or name == ".purge" and opn == "gc"
        wait = name == ".purge" and mode == "x" and opn in PURGE
        th = threading.Thread(target=op.run, daemon=True)
        th.start()
        th.join(0.25 if wait else 10)
        alive = th.is_alive()
        if refuse:
            check(not alive, f"{what}: is not refused at once")
            if not (opn == "gc" and case["op"] == "cli-gc"):
                check(op.refused, f"{what}: is not refused")
            after = repo_tree(w)
            check(before == after, f"{what}: the refused operation changed something: {tree_diff(before, after)}")
        elif wait:
            if not alive:
                check(op.refused, f"{what}: neither waits nor is refused")
            elif opn != "backup":
                after = repo_tree(w)
                check(before == after, f"{what}: changes something before the lock is free: {tree_diff(before, after)}")
        elif not (opn == "expire" and case["op"] != "expire" and name == ".purge"):
            check(not alive, f"{what}: waits")
            check(not op.refused, lambda: f"{what}: is refused ({getattr(op, 'err', '')[-300:] if isinstance(op, Cli) else op.error!r})")
        # the holder still holds it
        with open(os.path.join(w.path, name)) as f:
            try:
                fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                raise Violation(f"{what}: the lock of the other process is gone")
            except BlockingIOError:
                pass
    finally:
        os.close(held)
        th.join(30)
        restore_clock()
    check(not th.is_alive(), f"{what}: still waits afterwards")
    if wait and alive and not op.error:
        check(not op.refused, lambda: f"{what}: fails after waiting")
    locks_free(w, what)
    return Info(refuse or wait, {"refused" if refuse else "waits" if wait else "free", case["op"]})


# ---------------------------------------------------------------- asynchronous operations

case3 = st.fixed_dictionaries({
    "t": template, "a": st.sampled_from(["pull", "push"]),
    "peers": st.lists(st.sampled_from(["ok", "ok", "error", "down", "crash"]), min_size=1, max_size=3),
    "b": st.lists(st.one_of(opt, st.sampled_from([("pull",), ("push",)])), min_size=1, max_size=2), "at": st.integers(0, 7),
    "cancel": st.sampled_from([None, None, None, 0.5, 1.5, 2.5, 4.5]),
    "same": st.booleans(),
})


def run_async(case, env):
    from aiohttp import ClientConnectionError, ClientResponseError

    import backy.daemon.api as api
    from backy.daemon.scheduler import Job
    from backy.revision import Revision
    from backy.source import AsyncCmdLineSource
    t = dict(case["t"], broken=None, kind="rbd", gone=None, distrusted=None)
    base = get_template(env, t)
    w = base.copy(os.path.join(env.dir(), "x"))
    w.ceph.use()
    names = [f"p{i}" for i in range(len(case["peers"]))]
    for i, n in enumerate(names):
        d = meta.record(10 + i, meta.utc(BASE, 1000 + i), ["manual:new"], server=n, orig=["daily"])
        meta.write_rev(w.path, d)
    dm = Daemons(w.d)
    labels = set()
    calls = [0]
    saved = {k: getattr(api.Client, k) for k in ("touch_backup", "get_revs", "put_tags", "run_purge")}
    what = f"{case['a']} with {case['b']} at call {case['at']}"

    def job(handle=None):
        daemon = types.SimpleNamespace(base_dir=Path(w.d), peers={n: {"url": "http://127.0.0.1:9", "token": "x"} for n in names}, loop=dm.loop)
        j = Job(daemon, "vm", log)
        j.source = AsyncCmdLineSource(handle or repo(w.path, SCHEDULE), {"type": "rbd", "pool": "rbd", "image": "img"}, log)
        return j

    j = job()
    nested = [False]

    async def others():
        i = calls[0]
        calls[0] += 1
        if i != case["at"]:
            return
        nested[0] = True
        try:
            for k, o in enumerate(case["b"]):
                before = repo_tree(w)
                handle = j.repository if case["same"] and k == 0 else None
                if o[0] in ("pull", "push"):
                    error = None
                    try:
                        await getattr(job(handle), o[0] + "_metadata")()
                    except Exception as e:
                        error = e
                    refused = isinstance(error, (BlockingIOError, RuntimeError))
                    outcome = error
                else:
                    b = Op(w, o, handle)
                    th = threading.Thread(target=b.run, daemon=True)
                    th.start()
                    th.join(5)
                    check(not th.is_alive(), f"{what}: {o} waits")
                    refused, outcome = b.refused or b.unprepared, b.outcome
                if o[0] in EX + ("pull", "push"):
                    check(refused, f"{what}: {o} ran meanwhile ({outcome})")
                    after = repo_tree(w)
                    check(before == after, f"{what}: the refused {o} changed something: {tree_diff(before, after)}")
                    labels.add(f"refused-{o[0]}")
        finally:
            nested[0] = False

    violations = []

    def stub(name):
        async def f(self, *args, **kw):
            if nested[0]:
                raise ClientConnectionError()
            try:
                await others()
                await asyncio.sleep(1)
                await others()
            except Violation as e:
                violations.append(e)
                return []
            mode = case["peers"][names.index(self.server_name)]
            if mode == "error":
                raise ClientResponseError(types.SimpleNamespace(real_url="x"), (), status=500)
            if mode == "down":
                raise ClientConnectionError()
            if mode == "crash":
                raise ValueError("crash") if name == "get_revs" else TimeoutError()
            if name == "get_revs":
                rec = meta.record(30 + names.index(self.server_name), meta.utc(BASE, 2000), ["daily"], server=self.server_name)
                return [Revision.from_dict(rec, args[0], log)]
        return f

    try:
        for k in saved:
            setattr(api.Client, k, stub(k))

        async def main():
            task = asyncio.ensure_future(getattr(j, case["a"] + "_metadata")())
            if case["cancel"] is not None:
                await asyncio.sleep(case["cancel"])
                if not task.done():
                    labels.add("cancelled")
                    task.cancel()
            try:
                await task
            except (Exception, asyncio.CancelledError) as e:
                labels.add(type(e).__name__)
            locks_free(w, what)
            await asyncio.sleep(20)  # whatever is still running
        dm.loop.run_until_complete(main())
        if violations:
            raise violations[0]
        locks_free(w, what)
        for o in (("clean",), ("gc",)):
            r = Op(w, o, handle=j.repository)
            r.run()
            check(not r.refused, f"{what}: {o} with the same handle afterwards: {r.error!r}")
    finally:
        for k, v in saved.items():
            setattr(api.Client, k, v)
        dm.close()
    return Info(bool(labels), labels | {case["a"]})


CAMPAIGNS = [
    Campaign("pairs", case, run_case, "the second operation was refused, waited or ran inside the first, or the first failed", weight=4, batch=10),
    Campaign("held", case2, run_held, "the lock held forbids the operation", weight=1, batch=10),
    Campaign("async", case3, run_async, "an operation was tried while metadata was synchronised, or it failed or was cancelled", weight=2, batch=20),
]

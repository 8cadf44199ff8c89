"""C24 The daemon deletes only directories untouched for three months."""
import os
import shutil

from hypothesis import strategies as st

from lib import meta
from lib.core import Campaign, Info, check
from lib.vloop import BASE, Daemons
from lib.world import DEFAULT_SCHEDULE, fast_environment, quiet_main

PROP = "C24"
TECHNIQUE = ("property-based testing: generated directory trees with modification times around the limit, run through the daemon's clean-up loops "
             "in virtual time with deletions contained, compared with an independent evaluation of the tree")
LEVEL = "exploration"
NOTE = "trees of up to ~25 entries, 3 levels deep, up to 4 daily runs with changes in between, failing deletions; no times closer than 5 s to the limit"
ASSUMPTIONS = ["nothing changes while a clean-up is looking at it"]
DAY = 86400
LIMIT = 93 * DAY


def worker_init(env):
    fast_environment()
    quiet_main()


age = st.one_of(
    st.sampled_from([0, 60, DAY, 30 * DAY, LIMIT - 5, LIMIT + 5, LIMIT + 5, LIMIT - DAY, LIMIT + DAY, LIMIT - DAY + 5, 94 * DAY, 200 * DAY, 200 * DAY, 1000 * DAY, -DAY]),
    st.integers(100, 300).map(lambda n: n * DAY), st.integers(LIMIT, 2 * LIMIT).map(lambda n: n + 5),
)
old = st.one_of(st.sampled_from([LIMIT + 5, 94 * DAY, 200 * DAY, 365 * DAY]), age)
leaf = st.tuples(st.sampled_from(["file", "file", "empty", "link-out", "link-in", "broken", "link-up"]), old, st.just([]))
node = st.recursive(leaf, lambda c: st.tuples(st.just("dir"), old, st.lists(c, max_size=4)), max_leaves=8)
top = st.one_of(
    st.tuples(st.just("dir"), old, st.lists(node, max_size=4)),
    st.tuples(st.just("dir"), old, st.lists(node, max_size=4)),
    leaf,
)
NAMES = ["vm1", "vm2", "job1", ".hidden", "with space", "ünïcode", "vm1.lock", "-rf", "a\nb", "*", "vm3", "vm4"]
INNER = ["n0", "n1", "n2", "n3", ".hidden", ".lock", ".purge", "config", "quarantine", "chunks", "last", "a.rev", "b.scrub", "tmpx", "~", "-", " ", "ü", "...", "a\nb", "*"]
change = st.tuples(st.integers(0, 3), st.integers(0, 40))
case = st.fixed_dictionaries({
    "top": st.lists(top, min_size=1, max_size=6),
    "days": st.integers(1, 4),
    "touch": st.lists(change, max_size=3),  # (day, which entry) is modified before that day's run
    "fail": st.lists(st.tuples(st.integers(0, 3), st.integers(0, 11)), max_size=2),  # deleting entry i fails on that day
    "offset": st.integers(0, DAY),
    "inner": st.lists(st.sampled_from(INNER), min_size=4, max_size=4, unique=True),  # the names of what is in a directory
})


def build(parent, nodes, now, outside, names, inner):
    todo = []
    for i, (kind, a, children) in enumerate(nodes):
        p = os.path.join(parent, names[i])
        if kind in ("dir", "empty"):
            os.makedirs(p)
            todo += build(p, children, now, outside, inner, inner)
        elif kind == "file":
            with open(p, "w") as f:
                f.write(p)
        elif kind == "link-out":
            os.symlink(outside, p)
        elif kind == "link-in":
            os.symlink(parent, p)
        elif kind == "link-up":
            os.symlink("..", p)
        else:
            os.symlink("/nonexistent/target", p)
        todo.append((p, a))
    return todo


def recent(p, ref):
    s = os.lstat(p)
    if s.st_mtime >= ref:
        return True
    if os.path.isdir(p) and not os.path.islink(p):
        return any(recent(os.path.join(p, n), ref) for n in os.listdir(p))
    return False


def listing(d):
    out = set()
    for root, dirs, files in os.walk(d):
        for n in dirs + files:
            out.add(os.path.relpath(os.path.join(root, n), d))
    return out


class Contained:
    """recursive deletions happen only below the scratch directory, and are recorded"""

    def __init__(self, d):
        self.d = os.path.realpath(d)
        self.calls = []
        self.fail = set()

    def __enter__(self):
        import aioshutil
        self.saved = aioshutil.rmtree, shutil.rmtree
        real = shutil.rmtree

        def rmtree(path, *a, **kw):
            p = os.path.abspath(os.fspath(path))
            self.calls.append(p)
            check(os.path.realpath(p).startswith(self.d + "/"), f"deletion of {p}, which is outside the scratch directory")
            if p in self.fail:
                raise OSError(16, "busy", p)
            return real(p, *a, **kw)

        async def armtree(path, *a, **kw):
            return rmtree(path, *a, **kw)
        aioshutil.rmtree, shutil.rmtree = armtree, rmtree
        return self

    def __exit__(self, *exc):
        import aioshutil
        aioshutil.rmtree, shutil.rmtree = self.saved


def conf(base, jobs=()):
    return {"global": {"base-dir": base}, "schedules": {"default": DEFAULT_SCHEDULE}, "api": {"addrs": "", "tokens": {}},
            "jobs": {j: {"source": {"type": "file", "filename": "/nonexistent"}, "schedule": "default"} for j in jobs}}


def run_old(case, env):
    import time
    d = env.dir()
    base, outside = os.path.join(d, "base"), os.path.join(d, "outside")
    os.makedirs(base)
    os.makedirs(os.path.join(outside, "sub"))
    for p in ("keep", "sub/keep"):
        with open(os.path.join(outside, p), "w") as f:
            f.write("x")
    for p in ("sub/keep", "sub", "keep", ""):
        os.utime(os.path.join(outside, p), (0, 0))
    labels = set()
    with Contained(d) as c, Daemons(d) as env2:
        daemon = env2.daemon(conf(base))
        epoch = BASE.timestamp() + case["offset"]
        real = time.time
        time.time = lambda: epoch + env2.loop.vt
        try:
            for p, a in build(base, case["top"], epoch, outside, NAMES, case["inner"]):
                os.utime(p, (epoch, epoch - a), follow_symlinks=False)
            everything = [p for p, _ in build_list(base)]
            tops = [os.path.join(base, n) for n in NAMES[:len(case["top"])]]
            task = env2.loop.create_task(daemon.purge_old_files())
            for day in range(case["days"]):
                now = epoch + day * DAY
                for on, i in case["touch"]:
                    if on == day and day and everything:
                        p = everything[i % len(everything)]
                        if os.path.lexists(p):
                            os.utime(p, (now, now - 60), follow_symlinks=False)
                            labels.add("touched")
                c.fail = {tops[i % len(tops)] for on, i in case["fail"] if on == day and day + 1 < case["days"]}
                c.calls.clear()
                ref = now - LIMIT
                stale = {p for p in tops if os.path.isdir(p) and not os.path.islink(p) and not recent(p, ref)}
                before, out = listing(base), listing(outside)
                env2.loop.run(DAY / 2 if day == 0 else DAY)
                check(not task.done(), f"day {day}: the clean-up loop has ended")
                after = listing(base)
                gone = {p for p in tops if not os.path.lexists(p)} & {os.path.join(base, x) for x in before}
                what = f"day {day}"
                for p in gone - stale:
                    check(False, f"{what}: {os.path.relpath(p, base)!r} is deleted although it is {describe(case, p, base)}")
                for p in before - after:
                    t = os.path.join(base, p.split("/")[0])
                    check(t in stale, f"{what}: {p!r} is deleted")
                check(listing(outside) == out, f"{what}: something outside the base directory is deleted: {out - listing(outside)}")
                check(os.path.isdir(base), "the base directory is gone")
                check(gone == stale - c.fail, f"{what}: stale directories {sorted(os.path.relpath(p, base) for p in stale - c.fail - gone)} are not deleted")
                if c.fail & stale:
                    labels.add("failing")
                if gone:
                    labels.add("deleted")
                if stale and len(gone) < len(tops):
                    labels.add("mixed")
            check(not env2.loop.errors, f"errors in the event loop: {env2.loop.errors}")
        finally:
            time.time = real
    return Info("deleted" in labels, labels)


def build_list(base):
    return [(os.path.join(r, n), 0) for r, ds, fs in sorted(os.walk(base)) for n in sorted(ds + fs)]


def describe(case, p, base):
    i = NAMES.index(os.path.basename(p))
    return f"{case['top'][i]}"


KINDS = ["dead", "dead", "dead", "dead-nomark", "active", "active-nomark", "file", "link", "noconfig", "broken"]
pcase = st.fixed_dictionaries({
    "entries": st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 500), st.integers(0, 3), st.sampled_from([False, False, False, True])), min_size=1, max_size=6),
    "days": st.integers(1, 4),
    "marks": st.lists(st.tuples(st.integers(1, 3), st.integers(0, 5)), max_size=3),
})


def run_pending(case, env):
    d = env.dir()
    base, outside = os.path.join(d, "base"), os.path.join(d, "outside")
    os.makedirs(base)
    os.makedirs(outside)
    meta.write_config(outside)
    open(os.path.join(outside, ".purge_pending"), "w").close()
    active, spec = [], {}
    for i, (kind, duration, rc, raises) in enumerate(case["entries"]):
        name = f"vm{i}"
        p = os.path.join(base, name)
        spec[name] = (kind, duration, rc, raises)
        if kind == "file":
            open(p, "w").close()
            continue
        if kind == "link":
            os.symlink(outside, p)
            continue
        if kind.startswith("active"):
            active.append(name)
        os.makedirs(p)
        if kind == "broken":
            with open(os.path.join(p, "config"), "w") as f:
                f.write("{")
        elif kind != "noconfig":
            meta.write_config(p, None, {"type": "rbd", "pool": "rbd", "image": name})
        if "nomark" not in kind:
            open(os.path.join(p, ".purge_pending"), "w").close()
    ran = []

    def handler(args):
        path = args[args.index("-C") + 1] if "-C" in args else ""
        check(args[0] == "backy-rbd" and args[-1] == "gc", f"unexpected command {args}")
        kind, duration, rc, raises = spec[os.path.basename(path)]
        ran.append(path)
        if raises:
            raise OSError(12, "cannot allocate memory")

        def effect():
            if rc == 0 and os.path.exists(os.path.join(path, ".purge_pending")):
                os.unlink(os.path.join(path, ".purge_pending"))
        return duration, rc, effect

    labels = set()
    with Contained(d) as c, Daemons(d, handler) as env2:
        daemon = env2.daemon(conf(base, active))
        for j in daemon.jobs.values():
            j.stop()
        task = env2.loop.create_task(daemon.purge_pending_backups())
        for day in range(case["days"]):
            for on, i in case["marks"]:
                name = f"vm{i}"
                if on == day and spec.get(name, ("",))[0].startswith("dead"):
                    open(os.path.join(base, name, ".purge_pending"), "w").close()
            due = {os.path.join(base, n) for n, s in spec.items()
                   if s[0].startswith("dead") and os.path.exists(os.path.join(base, n, ".purge_pending"))}
            unusable = any(s[0] in ("noconfig", "broken") for s in spec.values()) or any(spec[os.path.basename(p)][3] for p in due)
            ran.clear()
            # the next round starts a day after the end of the previous one; this stops half-way between them
            env2.loop.run(DAY / 2 if day == 0 else DAY)
            what = f"round {day}"
            check(not task.done(), f"{what}: the loop has ended")
            for p in ran:
                check(p in due, f"{what}: garbage collection of {p}")
            check(len(ran) == len(set(ran)), f"{what}: repeated garbage collection {ran}")
            check(set(ran) == due, f"{what}: no garbage collection of {sorted(due - set(ran))}")
            if due:
                labels.add("failing entry" if unusable else "collected")
        check(not c.calls, f"deletions: {c.calls}")
        check(not env2.loop.errors, f"errors in the event loop: {env2.loop.errors}")
    return Info(bool(labels), labels)


CAMPAIGNS = [
    Campaign("old", case, run_old, "a directory was deleted", batch=60),
    Campaign("pending", pcase, run_pending, "a pending purge was due", batch=60, weight=0.4),
]

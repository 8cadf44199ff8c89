"""C19 The job loop retries with backoff, respects worker limits and never dies."""
import datetime
import fcntl
import os
import types

import yaml
from hypothesis import strategies as st

from lib import meta
from lib.core import Campaign, HarnessError, Info, check
from lib.vloop import BASE, Daemons
from lib.world import fast_environment, fast_yaml, quiet_main, read_rev_files, schedule
from props.c16 import conf_of, seconds

PROP = "C19"
TECHNIQUE = "model-based testing of the daemon's job loops in virtual time under generated step outcomes, triggers and reconfigurations"
LEVEL = "exploration"
NOTE = "1-5 jobs, worker limits 1-3, up to 3 days of virtual time per case, scripted outcomes of backup, garbage collection and callback processes"
ASSUMPTIONS = [
    "the duration of the daemon's own (in-process) work is negligible",
    "a failing exit status of garbage collection or the callback may or may not count as a failed backup",
    "a manual trigger that arrives while its job is already queued for a worker is not judged",
]


def worker_init(env):
    fast_environment()
    quiet_main()
    fast_yaml()


SCHEDS = [
    {"daily": ("1d", 2)}, {"hourly": ("1h", 3)}, {"hourly": ("2h", 2), "daily": ("1d", 2)}, {"daily": ("1d", 2), "weekly": ("7d", 2)},
    {"hourly": ("90m", 2)}, {"hourly": ("3600", 1), "daily": ("36h", 1)},
]
dur = st.sampled_from([0, 5, 60, 60, 400, 900, 2700, 7000])
OK = ["ok", 30, "complete", 0, 5, 0, 2]
backup = st.one_of(
    st.tuples(st.just("ok"), dur, st.just("complete")),
    st.tuples(st.just("ok"), dur, st.just("complete")),
    st.tuples(st.just("fail"), dur, st.sampled_from(["incomplete", "incomplete", "gone", "complete"])),
    st.tuples(st.just("exc"), st.just(0), st.just("incomplete")),
)
small = st.sampled_from([0, 5, 60, 700])
rc = st.sampled_from(["ok"] * 5 + ["fail", "exc"])
attempt = st.tuples(backup, st.tuples(rc, small), st.tuples(rc, small))
failing = st.tuples(st.tuples(st.sampled_from(["fail", "fail", "exc"]), small, st.sampled_from(["incomplete", "gone", "complete"])),
                    st.tuples(rc, small), st.tuples(rc, small))
job = st.fixed_dictionaries({
    "sched": st.integers(0, len(SCHEDS) - 1),
    "revs": st.lists(st.fixed_dictionaries({
        "age": st.one_of(st.integers(1, 3 * 86400), st.integers(1, 20000)), "tags": st.lists(st.sampled_from(["daily", "hourly", "weekly", "manual:a"]), max_size=2, unique=True),
        "server": st.just(""), "trust": st.sampled_from(["trusted", "trusted", "verified", "distrusted"]), "complete": st.sampled_from([True, True, False])}), max_size=3),
    "script": st.one_of(st.lists(attempt, max_size=6), st.lists(attempt, max_size=6), st.lists(failing, min_size=3, max_size=11)),
})
hours = st.integers(0, 4 * 3600)
op = st.one_of(
    st.tuples(st.just("trigger"), hours, st.integers(0, 4)),
    st.tuples(st.just("trigger"), hours, st.integers(0, 4)),
    st.tuples(st.just("remove"), hours, st.integers(0, 4)),
    st.tuples(st.just("add"), hours, st.integers(0, 4)),
    st.tuples(st.just("reload"), hours, st.just(0)),
)
base = {
    "jobs": st.lists(job, min_size=1, max_size=5), "limit": st.integers(1, 3), "callback": st.booleans(),
    "hours": st.one_of(st.integers(2, 20), st.integers(2, 60)),
}
case = st.fixed_dictionaries(dict(base, ops=st.lists(op, max_size=8), locks=st.lists(st.tuples(st.integers(0, 4), hours, st.integers(1, 9000)), max_size=2)))
old_rev = st.fixed_dictionaries({"age": st.integers(2 * 86400, 3 * 86400), "tags": st.just(["manual:a"]), "server": st.just(""), "trust": st.just("trusted"), "complete": st.just(True)})
long = st.tuples(st.tuples(st.sampled_from(["ok", "ok", "fail"]), st.sampled_from([60, 60, 300, 300, 900, 2700, 7000]), st.sampled_from(["complete", "complete", "incomplete"])).map(
    lambda x: (x[0], x[1], "complete") if x[0] == "ok" else x), st.tuples(rc, small), st.tuples(rc, small))
crowd_case = st.fixed_dictionaries(dict(
    base, jobs=st.lists(st.fixed_dictionaries({"sched": st.sampled_from([1, 1, 2, 4, 5]), "revs": st.lists(old_rev, min_size=1, max_size=1), "script": st.lists(long, min_size=3, max_size=8)}),
                        min_size=3, max_size=5),
    limit=st.sampled_from([1, 1, 2]), hours=st.integers(2, 8), ops=st.lists(st.one_of(op, st.tuples(st.sampled_from(["remove", "add", "trigger"]), st.integers(0, 3000), st.integers(0, 4))), max_size=10)))
corrupt_case = st.fixed_dictionaries(dict(base, corrupt=st.tuples(st.integers(0, 30000), st.integers(1, 40000), st.sampled_from(["garbage", "empty", "binary", "list", "nodate"]))))
CORRUPT = {"garbage": b"{[", "empty": b"", "binary": bytes(range(256)), "list": b"- a\n- b\n", "nodate": b"uuid: xyz\ntags: []\nstats: {}\ntimestamp: nonsense\n"}
EMPTY = types.SimpleNamespace(history=[], clean_history=[], last_by_tag=lambda: {})
EPS = 0.05


class Run:
    def __init__(self, cls, ready, start, end):
        self.cls, self.ready, self.start, self.end = cls, ready, start, end


class Model:
    """what one job is allowed and obliged to do"""

    def __init__(self, name, j, path, sim):
        self.name, self.path, self.sim = name, path, sim
        self.sched = SCHEDS[j["sched"]]
        self.conf = conf_of(self.sched)
        self.script = list(j["script"])
        self.queue = list(self.script)
        self.alts = []  # (number of failures, time the loop started over)
        self.trigger = None
        self.run = None
        self.phase = None
        self.left = set()  # incomplete revisions
        self.present = False
        self.lenient = False
        self.starts = []

    def born(self, t):
        self.present = True
        self.alts = [(0, t)]
        self.run = None
        self.trigger = None
        self.spread = self.sim.dm.jobs[self.name].spread if self.sim.dm else None

    # --- the schedule

    def records(self, without=None):
        return [r for u, r in read_rev_files(self.path).items() if u != without]

    def due(self, alt, without=None):
        """-> (earliest start, tags) after the loop started over at alt"""
        errors, t = alt
        now = BASE + datetime.timedelta(seconds=t)
        if self.spread is None:
            self.spread = self.sim.dm.jobs[self.name].spread
        h = self.records(without)
        some = bool(h) or bool(self.left)
        due = {tag: schedule({tag: self.conf[tag]}).next(now, self.spread, EMPTY)[0] for tag in self.conf}
        regular = min(due.values())
        tags = {tag for tag in due if due[tag] == regular}
        missed = set()
        for tag in self.conf:
            last = [m["timestamp"] for m in h if tag in m["tags"] and "duration" in m["stats"]]
            if not last or max(last) <= now - datetime.timedelta(seconds=seconds(self.conf[tag]["interval"])):
                missed.add(tag)
        if missed and some and regular > now + datetime.timedelta(minutes=5):
            when, tags = now, missed
        else:
            when, tags = regular, tags | missed
        if errors:
            d = t + 60 * min(2 ** errors, 360)
        else:
            d = (when - BASE).total_seconds()
        ready = d
        if self.trigger is not None:
            ready = min(d, max(t, self.trigger))
        return max(ready, t), tags

    def settle(self, now, without=None):
        """attempts that fail because the repository is locked, before a process is started"""
        for _ in range(200):
            new = []
            for alt in self.alts:
                ready, tags = self.due(alt, without)
                if ready <= now + EPS and self.sim.locked(self.name, ready):
                    alt = (alt[0] + 1, ready)
                    self.sim.labels.add("locked at start")
                new.append(alt)
            if new == self.alts:
                return
            self.alts = new
            self.trigger = None

    def speed(self, without=None):
        done = sorted((r for r in self.records(without) if "duration" in r["stats"]), key=lambda r: r["timestamp"])
        return "fast" if done and done[-1]["stats"]["duration"] < 600 else "slow"

    def describe(self):
        return (f"{self.name} (schedule {self.sched}, spread {self.spread}, starts so far {[round(x, 2) for x in self.starts]}, "
                f"failures/last end {self.alts}, trigger {self.trigger})")


class Sim:
    def __init__(self, case, env):
        self.case = case
        self.dm = None
        self.d = env.dir()
        self.basedir = os.path.join(self.d, "base")
        os.makedirs(self.basedir)
        # waiting for a worker and for a lock do not combine in the model
        self.limit = max(case["limit"], len(case["jobs"])) if case.get("locks") else case["limit"]
        self.runs = []
        self.labels = set()
        self.models = {}
        self.error = None
        for i, j in enumerate(case["jobs"]):
            name = f"vm{i}"
            path = os.path.join(self.basedir, name)
            meta.build(path, j["revs"], BASE, conf_of(SCHEDS[j["sched"]]))
            m = self.models[name] = Model(name, j, path, self)
            m.left = {u for u, r in read_rev_files(path).items() if "duration" not in r["stats"]}
        self.locks = []
        for i, start, length in case.get("locks", ()):
            self.locks.append((f"vm{i % len(case['jobs'])}", start + .61, start + .61 + length))

    def config(self):
        return {
            "global": {"base-dir": self.basedir, "worker-limit": self.limit, **({"backup-completed-callback": "/nonexistent/callback"} if self.case["callback"] else {})},
            "api": {"cli-default": {"token": "x"}},
            "schedules": {f"s{i}": conf_of(s) for i, s in enumerate(SCHEDS)},
            "jobs": {n: {"schedule": f"s{j['sched']}", "source": {"type": "file", "filename": "/nonexistent"}}
                     for (n, m), j in zip(self.models.items(), self.case["jobs"]) if m.present},
        }

    def locked(self, name, t):
        return any(n == name and a <= t < b for n, a, b in self.locks)

    def busy(self, cls, a, b):
        """all slots taken throughout [a, b)"""
        points = sorted({a, b} | {x for r in self.runs for x in (r.start, r.end) if a < x < b})
        for x, y in zip(points, points[1:]):
            if y - x <= EPS:
                continue
            mid = (x + y) / 2
            if sum(1 for r in self.runs if r.cls == cls and r.start <= mid < r.end) < self.limit:
                return False
        return True

    def fail(self, e):
        if self.error is None:
            self.error = e
        self.ds.loop.stop()

    # --- processes

    def handler(self, args):
        try:
            return self._handler(args)
        except OSError:
            raise
        except BaseException as e:
            # not for the code under test
            self.fail(e)
            raise

    def _handler(self, args):
        now = self.ds.loop.vt
        if args[0] == "/nonexistent/callback":
            name, kind = args[1], "callback"
        else:
            name = os.path.basename(args[args.index("-C") + 1].rstrip("/"))
            kind = "backup" if "backup" in args else "gc" if "gc" in args else "?"
        m = self.models.get(name)
        if m is None or kind == "?":
            raise HarnessError(f"unexpected process {args}")
        check(m.present, f"{m.describe()} was stopped, yet {kind} starts at {now:.2f}")
        if kind == "backup":
            return self.on_backup(m, now, args[-1])
        r = m.run
        check(r is not None and m.phase in (("backup",) if kind == "gc" else ("gc",)) and abs(now - r.end) < EPS,
              f"{m.describe()}: {kind} starts at {now:.2f} after {m.phase} which ended at {r and r.end}")
        outcome, d = m.attempt[1 if kind == "gc" else 2]
        errors = m.errors
        m.phase = kind
        if outcome == "exc":
            m.alts = [(errors + 1, now)]
            m.over = True
            self.labels.add(kind + " raises")
            raise OSError("scripted")
        r.end = now + d
        m.maybe = getattr(m, "maybe", False) if kind == "callback" else False
        if outcome == "fail":
            m.maybe = True
            self.labels.add(kind + " fails")
        m.alts = [(0, r.end)] + ([(errors + 1, r.end)] if m.maybe else [])
        return d, 3 if outcome == "fail" else 0, None, b""

    def on_backup(self, m, now, uuid):
        path = os.path.join(m.path, uuid + ".rev")
        check(os.path.exists(path), f"{m.describe()}: backup of revision {uuid} which does not exist")
        rev = read_rev_files(m.path)[uuid]
        if not m.lenient:
            check(m.run is None or now >= m.run.end - EPS, f"{m.describe()}: second backup at {now:.2f} while one is running")
            self.complete_check(m)
            m.settle(now, uuid)
            fits = []
            why = []
            for alt in m.alts:
                ready, tags = m.due(alt, without=uuid)
                cls = m.speed(without=uuid)
                if now < ready - EPS:
                    why.append(f"starts {ready - now:.2f} s early (expected at {ready:.2f})")
                elif now > ready + EPS and not self.busy(cls, ready, now):
                    why.append(f"starts {now - ready:.2f} s late (expected at {ready:.2f}) although a {cls} worker was available")
                elif set(rev["tags"]) != tags:
                    why.append(f"has tags {sorted(rev['tags'])} instead of {sorted(tags)}")
                else:
                    fits.append((alt, ready, cls))
            check(fits, f"{m.describe()}: backup at {now:.2f} {' or '.join(why)}")
            (errors, t), ready, cls = fits[0]
            if now > ready + EPS:
                self.labels.add("waited for a worker")
        else:
            errors, ready, cls = 0, now, m.speed(without=uuid)
        m.errors = errors
        m.trigger = None
        m.left = set()
        m.starts.append(now)
        m.attempt = m.queue.pop(0) if m.queue else (("ok", 30, "complete"), ("ok", 5), ("ok", 2))
        outcome, d, leaves = m.attempt[0]
        end = now + d
        m.phase = "backup"
        m.over = True
        m.run = r = Run(cls, ready, now, end)
        r.name = m.name
        self.runs.append(r)
        running = [x.name for x in self.runs if x.cls == cls and x.start <= now + EPS and x.end > now + EPS]
        check(len(running) <= self.limit, f"{running} make {cls} backups at {now:.2f}, the limit is {self.limit}")
        if errors > 2:
            self.labels.add("backoff")
        if errors > 8:
            self.labels.add("longest backoff")

        def effect():
            with open(path) as f:
                data = yaml.safe_load(f)
            if leaves == "gone":
                os.unlink(path)
                m.left = set()
            elif leaves == "complete":
                data["stats"]["duration"] = float(d)
                with open(path + ".new", "w") as f:
                    yaml.safe_dump(data, f)
                os.rename(path + ".new", path)
                m.left = set()

        if leaves != "gone" or outcome == "exc":
            m.left = {uuid}
        if outcome == "exc":
            r.end = now
            m.alts = [(errors + 1, now)]
            self.labels.add("backup raises")
            raise OSError("scripted")
        if outcome == "fail":
            m.alts = [(errors + 1, end)]
            self.labels.add("backup fails")
            return d, 1, effect
        if self.locked(m.name, end):
            m.alts = [(errors + 1, end)]
            self.labels.add("locked")
            return d, 0, effect
        m.over = False
        m.alts = [(0, end)]
        return d, 0, effect

    def complete_check(self, m):
        """a successful backup is followed by garbage collection and the callback"""
        if m.run is None or m.over or m.lenient:
            return
        want = "callback" if self.case["callback"] else "gc"
        if m.phase != want and not (m.phase == "gc" and m.maybe):
            check(False, f"{m.describe()}: {want} was never started after the backup at {m.run.start:.2f} ({m.phase} was)")

    # --- operations

    def trigger(self, m):
        now = self.ds.loop.vt
        if not m.present or m.trigger is not None:
            return
        if m.run is not None and now < m.run.end + 1:
            if now > m.run.end - 1:
                return
            m.trigger = now
            self.labels.add("trigger while running")
        else:
            m.settle(now)
            if len(m.alts) > 1 or any(self_ready <= now + 1 for self_ready, tags in [m.due(a) for a in m.alts]):
                return
            m.trigger = now
            self.labels.add("trigger")
        self.dm.jobs[m.name].run_immediately.set()

    def apply(self, kind, m):
        now = self.ds.loop.vt
        if kind == "trigger":
            return self.trigger(m)
        if kind == "remove":
            if not m.present:
                return
            if m.run is not None and abs(m.run.end - now) < 1:
                return
            m.present = False
            if m.run is not None and m.run.end > now:
                self.labels.add("removed while running")
                m.run.end = now
                m.killed = True
                procs = [p for a, p in self.ds.procs if (a[1] == m.name or m.path in a) and p.returncode is None]
            else:
                procs = []
            self.ds.config(self.config())
            self.ds.in_loop(self.dm.reload)
            m.kill = procs
        elif kind == "add":
            if m.present:
                return
            m.present = True
            self.ds.config(self.config())
            self.ds.in_loop(self.dm.reload)
            m.spread = None
            m.born(now)
            m.over = True
            self.labels.add("added")
        elif kind == "reload":
            self.ds.in_loop(self.dm.reload)

    def finish(self):
        """nobody waits without reason"""
        now = self.ds.loop.vt
        for m in self.models.values():
            if not m.present or m.lenient:
                continue
            if m.run is not None and m.run.end > now - EPS:
                continue
            self.complete_check(m)
            m.settle(now)
            readys = [m.due(a)[0] for a in m.alts]
            ready = max(readys)
            m.ready = ready
            if ready < now - 1:
                cls = m.speed()
                check(self.busy(cls, ready, now), f"{m.describe()}: backup is due since {ready:.2f}, a {cls} worker is available, but nothing was started until {now:.2f}")
        # first come, first served
        for cls in ("fast", "slow"):
            rs = [r for r in self.runs if r.cls == cls and not self.models[r.name].lenient]
            for a in rs:
                for b in rs:
                    if a.ready < b.ready - EPS and a.start > b.start + EPS:
                        check(False, f"{a.name} was due at {a.ready:.2f} but started at {a.start:.2f}, after {b.name}, due at {b.ready:.2f} and started at {b.start:.2f}")


class Loops(Daemons):
    def in_loop(self, fn):
        fn()


def schedule_ops(sim, ops, horizon):
    loop = sim.ds.loop
    t = 0
    names = list(sim.models)
    for kind, delta, n in ops:
        t += delta
        if t > horizon - 10:
            break
        loop.call_at(t + .37, guarded(sim, sim.apply), kind, sim.models[names[n % len(names)]])
        loop.call_at(t + .99, guarded(sim, terminated), sim)
    for name, a, b in sim.locks:
        fds = []

        def lock(name=name, fds=fds):
            f = open(os.path.join(sim.basedir, name, ".backup"), "a")
            fcntl.flock(f, fcntl.LOCK_SH)
            fds.append(f)

        def unlock(fds=fds):
            fds.pop().close()
        loop.call_at(a, guarded(sim, lock))
        loop.call_at(b, guarded(sim, unlock))


def guarded(sim, fn):
    def f(*a):
        try:
            return fn(*a)
        except BaseException as e:
            sim.fail(e)
    return f


def terminated(sim):
    for m in sim.models.values():
        for p in getattr(m, "kill", ()):
            check(p.terminated, f"{m.name} was stopped but its process keeps running")
        m.kill = []


def run_case(case, env):
    sim = Sim(case, env)
    horizon = case["hours"] * 3600
    with Loops(sim.d, sim.handler) as ds:
        sim.ds = ds
        for m in sim.models.values():
            m.present = True
        ds.config(sim.config())
        sim.dm = ds.daemon(None)
        for m in sim.models.values():
            m.born(0.0)
            m.over = True
        schedule_ops(sim, case.get("ops", ()), horizon)
        corrupt = case.get("corrupt")
        if corrupt:
            victim = sim.models["vm0"]
            victim.lenient = True
            start, length, kind = corrupt
            horizon = max(horizon, start + length + 6 * 3600 + 86400 + 7000 * len(case["jobs"]) + 3600)
            bad = os.path.join(victim.path, "Zzzzzzzzzzzzzzzzzzzzzz.rev")

            def damage():
                with open(bad, "wb") as f:
                    f.write(CORRUPT[kind])
            ds.loop.call_at(start + .53, damage)
            ds.loop.call_at(start + length + .53, lambda: os.path.exists(bad) and os.unlink(bad))
        left = horizon
        while left > 0 and sim.error is None:
            try:
                ds.loop.run(min(left, 6 * 3600))
            except RuntimeError:
                if sim.error is None:
                    raise
            left -= 6 * 3600
        if sim.error is not None:
            raise sim.error
        sim.finish()
        if corrupt:
            end = start + length + .53
            check(any(s >= end for s in victim.starts),
                  f"{victim.name}: an unreadable revision existed from {start}.53 to {end}; backups were started at {victim.starts}, none after that until {horizon}")
            sim.labels.add("unreadable revision")
    n = len(sim.runs)
    return Info(n >= 3 and len(sim.labels) >= 1, sim.labels, sample={"runs": n, "case": case})


CAMPAIGNS = [
    Campaign("loops", case, run_case, "at least 3 backups were started and a step failed, a job was queued or an operation took effect", weight=5, batch=10),
    Campaign("crowd", crowd_case, run_case, "at least 3 backups were started and a step failed, a job was queued or an operation took effect; more jobs than workers are due at once", weight=4, batch=10),
    Campaign("unreadable", corrupt_case, run_case, "at least 3 backups were started, metadata of one job was unreadable for a while", weight=1, batch=5),
]

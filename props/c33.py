"""C33 The completion callback is told about every finished backup, truthfully."""
import datetime
import os

import yaml
from hypothesis import strategies as st

from lib import meta
from lib.core import Campaign, Info, check
from lib.vloop import BASE, Daemons
from lib.world import fast_environment, fast_yaml, quiet_main, read_rev_files
from props import c30

PROP = "C33"
TECHNIQUE = "stateful property-based testing of whole servers in virtual time: every call of the callback is compared with the repository's files and with the history of backups"
LEVEL = "exploration"
NOTE = "1-3 daemons with their real HTTP interfaces, 1-2 jobs, up to 10 events over up to 5 intervals; backup processes and callbacks are stand-ins"
ASSUMPTIONS = ["the clocks of the servers agree", "a callback that cannot be started may count as a failed run", "nobody else edits metadata while a run ends"]
H = 3600


def worker_init(env):
    fast_environment()
    quiet_main()
    fast_yaml()


sv = st.integers(0, 2)
jb = st.integers(0, 1)
call = st.tuples(st.sampled_from([0, 0, 0, 3, 700]), st.sampled_from([0, 0, 0, 1, 255, -9, "exc"]), st.sampled_from([0, 0, 1, 2]))
kind = st.one_of(
    c30.kind, st.tuples(st.just("trigger"), sv, jb), st.tuples(st.just("trigger"), sv, jb),
    st.tuples(st.just("tags"), sv, jb, st.integers(0, 5), st.sampled_from([["manual:x"], ["manual:\u00e4 \u2028"], [], ["a", "b", "often", "daily"]])),
    st.tuples(st.just("distrust"), sv, jb), st.tuples(st.just("cb"), sv, st.booleans()),
)
case = st.fixed_dictionaries({
    "n": st.sampled_from([1, 2, 2, 2, 3]), "jobs": st.sampled_from([1, 1, 2]), "sched": st.integers(0, len(c30.SCHEDS) - 1), "limit": st.integers(1, 2),
    "start": st.integers(0, 48 * H),
    "servers": st.lists(st.fixed_dictionaries({
        "up": st.sampled_from([True, True, True, False]), "jobs": st.sampled_from([3, 3, 3, 1]), "minutes": st.sampled_from([1, 1, 5, 40]),
        "revs": st.lists(st.tuples(st.integers(0, 6000), st.booleans()), max_size=4)}), min_size=3, max_size=3),
    "events": st.lists(st.tuples(st.integers(0, 1300), kind), max_size=10),
    "calls": st.lists(call, max_size=6),
})
OUT = [b"", b"done\n", b"\xff\x00" * 5000]


class World(c30.World):
    def __init__(self, case, d, ds):
        self.callbacks = {}  # server -> configured
        self.calls = []  # (server, job, time, the repository then)
        self.ran = {}  # (server, job) -> [(time, own backup completed)] of finished backup processes
        self.order = list(case["calls"])
        super().__init__(case, d, ds)

    def where(self, args):
        if str(args[0]).startswith("/cb/"):
            i = int(str(args[0])[4:])
            return i, args[1], os.path.join(self.servers[i].base, args[1])
        return super().where(args)

    def follow(self, s, n):
        pass

    def expired(self, *a):
        pass

    def conf(self, s):
        c = super().conf(s)
        if self.callbacks.get(s.i, True):
            c["global"]["backup-completed-callback"] = f"/cb/{s.i}"
        return c

    def _handler(self, args):
        if not str(args[0]).startswith("/cb/"):
            r = super()._handler(args)
            if "backup" in args:
                i, n, path = self.where(args)
                rec = [self.now, None, args[-1], False, False]
                self.ran.setdefault((i, n), []).append(rec)
                inner = r[2]

                def effect():
                    inner()
                    rec[1] = self.now
                    rec[3] = any(u == rec[2] for _, _, k, u in self.done[n] if k == i)
                    rec[4] = self.callbacks.get(i, True)
                return r[0], r[1], effect, r[3]
            return r
        i = int(args[0][4:])
        check(len(args) == 2, f"the callback is called with {args[1:]} instead of the job's name")
        n = args[1]
        s = self.servers[i]
        check(s.up and self.callbacks.get(i, True), f"s{i} calls the callback {args} which is not configured any more")
        check(n in s.jobs, f"s{i} calls its callback for {n!r}, jobs are {sorted(s.jobs)}")
        disk = {u: meta.canonical(r) for u, r in read_rev_files(os.path.join(s.base, n)).items()}
        d, rc, out = self.order[len(self.calls) % len(self.order)] if self.order else (0, 0, 0)
        rec = [i, n, self.now, disk, rc != "exc"]
        if not any(e[1][0] in ("cut", "stop", "start", "reload", "job") for e in self.case["events"]):
            for p in self.servers:
                if p is not s and p.up and n in p.jobs:
                    old = {u for a, b, k, u in self.done[n] if k == p.i and b < self.now - 120}
                    missing = sorted(set(self.own(p.i, n)) & old - set(disk))
                    check(not missing, lambda: f"s{i} calls its callback for {n!r} at {self.now / H:.3f} h without having fetched the revisions {missing} of s{p.i}")
        self.calls.append(rec)
        if rc == "exc":
            self.labels.add("callback cannot be started")
            raise OSError("scripted")
        if rc or d:
            self.labels.add("callback fails or takes long")
        return d, rc, None, OUT[out]

    def happen(self, e):
        if e[0] not in ("tags", "distrust", "cb"):
            return super().happen(e)
        s = self.servers[e[1] % self.n]
        if e[0] == "cb":
            self.callbacks[s.i] = e[2]
            if s.up:
                self.reload(s)
            return
        n = self.names[e[2] % len(self.names)]
        path = os.path.join(s.base, n)
        revs = sorted((r["timestamp"], u) for u, r in (read_rev_files(path) if os.path.isdir(path) else {}).items() if "duration" in r["stats"])
        if not revs or any(p.returncode is None for a, p in self.ds.procs):
            return
        from backy.repository import Repository
        from pathlib import Path
        from lib.world import log
        r = Repository(Path(path), s.dm.jobs[n].schedule, log) if s.up and n in s.jobs else None
        if r is None:
            return
        r.connect()
        u = revs[e[3] % len(revs)][1] if e[0] == "tags" else None
        try:
            if u:
                r.tags("set", u, set(e[4]), force=True)
                self.labels.add("tags edited")
            else:
                r.distrust([x for x in r.get_history(local=True)])
        except BlockingIOError:
            pass

    def verdict(self):
        started = [p for a, p in self.ds.procs if str(a[0]).startswith("/cb/")]
        started.reverse()
        last = {}
        for i, n, t, disk, ok in self.calls:
            what = f"callback of s{i} for {n!r} at {t / H:.3f} h"
            if ok:
                p = started.pop()
                if p.stdin is not None:
                    try:
                        got = yaml.safe_load(p.stdin)
                        got = [meta.canonical(r) for r in got]
                    except Exception as e:
                        check(False, f"{what} is given unreadable input {p.stdin[:200]!r}: {e!r}")
                    want = sorted(disk.values(), key=lambda r: r["timestamp"])
                    check(got == want, lambda: f"{what} is told about {brief(got)} while the repository has {brief(want)}")
                    if any(r["server"] for r in want):
                        self.labels.add("mirrored revisions in a callback")
            # something was completed
            runs = [r for r in self.ran.get((i, n), ()) if r[0] < t]
            own = bool(runs) and runs[-1][1] is not None and runs[-1][3] and runs[-1][1] > last.get((i, n), -1)
            if own:
                self.labels.add("callback after an own backup")
            else:
                since = last.get((i, n), -10**9) - 3600 - 60 * self.minutes
                others = [b for a, b, k, u in self.done[n] if since <= b <= t + .01]
                check(others and self.n > 1, f"{what} although no backup was completed since the previous call; backups: {self.history(n)}")
                self.labels.add("callback after a backup of another server")
            last[i, n] = t
        # every completed run is reported
        for (i, n), runs in self.ran.items():
            for k, r in enumerate(runs):
                if not r[3] or not r[4] or r[1] is None:
                    continue
                until = runs[k + 1][0] if k + 1 < len(runs) else self.now
                if until - r[1] < 1800 or self.troubled(i, n, r[1], until):
                    continue
                calls = [(t, ok) for j, m, t, _, ok in self.calls if j == i and m == n and r[1] <= t < min(until, r[1] + 1800)]
                check(len(calls) >= 1, f"s{i} completed a backup of {n!r} at {r[1] / H:.3f} h, but the callback is not called")
                if not calls[0][1]:
                    continue  # tried again as after a failure
                calls = [t for t, ok in calls]
                check(calls[0] - r[1] < 600 and len([t for t in calls if t - calls[0] < 200]) == 1,
                      f"s{i} completed a backup of {n!r} at {r[1] / H:.3f} h, the callback is called at {[round(t / H, 3) for t in calls]} h")
                self.labels.add("exactly once")

        # whoever makes the backups, each server that is able to tells about them
        for s in self.servers:
            for n in list(s.since):
                self.ends(s, n)
        switched = {e[1][1] % self.n for e in self.case["events"] if e[1][0] == "cb"}
        for n, i, a, b in self.care:
            if i in switched:
                continue
            times = [a] + [t for j, m, t, _, _ in self.calls if j == i and m == n and a <= t <= b] + [b]
            gap = max(y - x for x, y in zip(times, times[1:]))
            check(gap <= self.window(), lambda: f"s{i} has not called its callback for {n!r} for {gap / H:.2f} h: {[round(t / H, 2) for t in times]}; backups: {self.history(n)}")
            if b - a > self.window():
                self.labels.add("regular")

    def troubled(self, i, n, a, b):
        return any(a - 60 * self.minutes <= t <= a + 1800 for t, k, *x in self.log if x and x[0] == i and k in ("stop", "job", "reload", "cb"))


def brief(revs):
    return [(r["uuid"][:6], str(r["timestamp"])[5:19], r["server"], r["tags"], r["trust"], "complete" if "duration" in r["stats"] else "incomplete") for r in revs]


def run_case(case, env):
    d = env.dir()
    with Daemons(d, base=BASE + datetime.timedelta(seconds=case["start"])) as ds:
        w = World(case, d, ds)
        w.log = []
        ds.handler = w.handler
        for at, e in sorted(case["events"], key=lambda x: x[0]):
            t = 2 * at * w.interval / 1000
            if t > ds.loop.vt:
                ds.loop.run(t - ds.loop.vt)
            if w.wrong:
                raise w.wrong
            w.log.append((ds.loop.vt, e[0]) + tuple([e[1] % w.n] if len(e) > 1 else []))
            w.happen(e)
        ds.loop.run(2 * w.interval)
        if w.wrong:
            raise w.wrong
        w.verdict()
        for s in w.servers:
            for n, j in (s.dm.jobs.items() if s.up else ()):
                check(j._task is not None and not j._task.done(), f"the loop of {n} at s{s.i} ended")
    return Info(nontrivial=bool(w.labels & {"exactly once", "callback after a backup of another server"}), labels=sorted(w.labels))


CAMPAIGNS = [Campaign("callbacks", case, run_case, "at least one callback after an own or another server's completed backup was judged", batch=6)]

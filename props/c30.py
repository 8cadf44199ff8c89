"""C30 Several servers together keep a job backed up."""
import collections
import datetime
import os

import yaml
from hypothesis import strategies as st

import backy.utils
from lib import meta
from lib.core import Campaign, HarnessError, Info, check
from lib.memnet import Net
from lib.vloop import BASE, Daemons
from lib.world import fast_environment, fast_yaml, quiet_main, read_rev_files

PROP = "C30"
TECHNIQUE = "stateful property-based testing of whole servers over days of virtual time with injected failures, invariants over the history of all backups"
LEVEL = "exploration"
NOTE = "2-3 daemons with their real HTTP interfaces, 1-2 jobs, up to 12 failures over up to 9 intervals; backup processes are stand-ins"
ASSUMPTIONS = ["the clocks of the servers agree", "the servers use the same schedule for a job", "nobody removes revisions by hand",
               "backups take at most 40 minutes"]


def worker_init(env):
    fast_environment()
    quiet_main()
    fast_yaml()


H = 3600
SCHEDS = [
    {"often": {"interval": "6h", "keep": 3}},
    {"daily": {"interval": "1d", "keep": 2}},
    {"a": {"interval": "8h", "keep": 2}, "b": {"interval": "1d", "keep": 2}},
    {"a": {"interval": "12h", "keep": 1}, "b": {"interval": "2d", "keep": 3}},
]
HOURS = [{"often": 6}, {"daily": 24}, {"a": 8, "b": 24}, {"a": 12, "b": 48}]
NAMES = ["vm", "a.b+1"]
sv = st.integers(0, 2)
jb = st.integers(0, 1)
kind = st.one_of(
    st.tuples(st.just("stop"), sv), st.tuples(st.just("stop"), sv), st.tuples(st.just("start"), sv),
    st.tuples(st.just("cut"), sv, sv, st.sampled_from(["refuse", "hang", "mute", "500"])), st.tuples(st.just("heal")),
    st.tuples(st.just("fail"), sv, jb), st.tuples(st.just("fail"), sv, jb), st.tuples(st.just("work"), sv),
    st.tuples(st.just("lose"), sv, jb),
    st.tuples(st.just("slow"), sv, st.sampled_from([1, 5, 40])),
    st.tuples(st.just("job"), sv, jb), st.tuples(st.just("job"), sv, jb),
    st.tuples(st.just("trigger"), sv, jb), st.tuples(st.just("reload"), sv),
)
# time in thousandths of the interval
event = st.tuples(st.integers(0, 2500), kind)
case = st.fixed_dictionaries({
    "n": st.sampled_from([2, 2, 3]), "jobs": st.sampled_from([1, 1, 2]), "sched": st.integers(0, len(SCHEDS) - 1), "limit": st.integers(1, 2),
    "start": st.integers(0, 48 * H),
    "servers": st.lists(st.fixed_dictionaries({
        "up": st.sampled_from([True, True, True, False]), "jobs": st.sampled_from([3, 3, 3, 1, 2, 0]), "minutes": st.sampled_from([1, 1, 5, 40]),
        "revs": st.lists(st.tuples(st.integers(0, 6000), st.booleans()), max_size=4)}), min_size=3, max_size=3),
    "events": st.lists(event, max_size=12), "tail": st.booleans(),
})


class Srv:
    pass


class World:
    def __init__(self, case, d, ds):
        self.case, self.d, self.ds = case, d, ds
        # no two moments are the same
        self.ticks = 0
        backy.utils.now = self.clock
        self.net = Net(ds.loop)
        self.net.fault, self.net.request = self.on_connect, self.on_request
        self.n = case["n"]
        self.names = NAMES[:case["jobs"]]
        self.hours = HOURS[case["sched"]]
        self.interval = min(self.hours.values()) * H
        self.labels = set()
        self.cuts = {}
        self.caller = {}
        self.done = {n: [] for n in self.names}  # (start, end, server, uuid) of complete backups
        self.states = collections.defaultdict(list)  # (server, job) -> [(time, own complete revisions)]
        self.wrong = None
        self.count = 0
        self.minutes = 1
        self.servers = []
        for i in range(self.n):
            c = case["servers"][i]
            s = Srv()
            s.i, s.base, s.up, s.dm = i, os.path.join(d, f"base{i}"), False, None
            s.jobs = {n for k, n in enumerate(self.names) if c["jobs"] & (1 << k)}
            if i == 0:
                s.jobs = set(self.names)
            s.minutes = c["minutes"]
            self.minutes = max(self.minutes, s.minutes)
            s.failing = {}
            s.since = {}  # job -> since when this server takes care of it
            s.touched = {}  # job -> when it was last disturbed
            os.makedirs(s.base)
            self.servers.append(s)
            for n in self.names:
                if c["revs"]:
                    os.makedirs(os.path.join(s.base, n, "quarantine"))
                    meta.write_config(os.path.join(s.base, n), SCHEDS[case["sched"]])
                for age, full in c["revs"]:
                    self.count += 1
                    t = age * self.interval // 1000 + self.count + i
                    tags = sorted(self.hours) if full else ["a" if "a" in self.hours else sorted(self.hours)[0]]
                    meta.write_rev(os.path.join(s.base, n), meta.record(self.count, meta.utc(ds.loop.base, t), tags))
                    self.done[n].append((-t, -t, i, meta.uid(self.count)))
        self.care = []  # (job, server, from, to)
        self.disturbed = -10**9
        for i, s in enumerate(self.servers):
            if case["servers"][i]["up"] or i == 0:
                self.start(s)
        self.look()

    @property
    def now(self):
        return self.ds.loop.vt

    def clock(self):
        self.ticks += 1
        return self.ds.loop.now() + datetime.timedelta(microseconds=self.ticks)

    # ---- servers
    def conf(self, s):
        return {
            "global": {"base-dir": s.base, "worker-limit": self.case["limit"]},
            "api": {"addrs": f"10.0.0.{s.i}", "port": 6023, "tokens": {f"tok-{j}-{s.i}": f"s{j}" for j in range(self.n) if j != s.i}},
            "peers": {f"s{j}": {"url": f"http://10.0.0.{j}:6023", "token": f"tok-{s.i}-{j}"} for j in range(self.n) if j != s.i},
            "schedules": {"s": SCHEDS[self.case["sched"]]},
            "jobs": {n: {"schedule": "s", "source": {"type": "file", "filename": "/nonexistent"}} for n in sorted(s.jobs)},
        }

    def start(self, s):
        s.up = True
        s.dm = self.ds.daemon(self.conf(s), f"conf{s.i}")
        before = set(self.tasks())
        self.ds.call(s.dm.api_server)
        s.api = [t for t in self.tasks() if t not in before]
        self.ds.loop.spin(30)
        for n in s.jobs:
            self.cares(s, n)

    def tasks(self):
        import asyncio
        return asyncio.all_tasks(self.ds.loop)

    def stop(self, s):
        s.up = False
        for n in list(s.jobs):
            self.ends(s, n)
        for p in [p for a, p in self.ds.procs if p.returncode is None and self.where(a)[0] == s.i]:
            p.terminate()
        self.ds.call(lambda: [j.stop() for j in s.dm.jobs.values()])
        for t in s.api:
            self.ds.call(t.cancel)
        for key in [k for k in self.net.servers if k[0] == f"10.0.0.{s.i}"]:
            del self.net.servers[key]
        for c, x in self.net.connections:
            if not x.closing and x.get_extra_info("sockname")[0] == f"10.0.0.{s.i}":
                self.ds.call(x.close)
        self.ds.loop.spin(60)
        s.dm = None

    def cares(self, s, n):
        """from now on s has to make backups of n"""
        self.ends(s, n)
        if s.up and n in s.jobs and n not in s.failing:
            j = s.dm.jobs[n]
            s.since[n] = self.now + (j.backoff if j.errors else 0)
        s.touched[n] = self.now

    def ends(self, s, n):
        if n in s.since:
            self.care.append((n, s.i, s.since.pop(n), self.now))
        s.touched[n] = self.now

    # ---- network
    def cut(self, data):
        import re
        m = re.search(rb"Bearer tok-(\d)-(\d)", data)
        return int(m.group(1)), int(m.group(2))

    def on_connect(self, host, port):
        # whoever connects: cuts are symmetric but may not hit everybody
        j = int(host.split(".")[-1])
        peers = [i for i in range(self.n) if i != j]
        kinds = {self.cuts.get(frozenset((i, j))) for i in peers}
        if len(kinds) == 1:
            k = kinds.pop()
            if k in ("refuse", "hang"):
                return (k,)
        return None

    def on_request(self, host, data):
        i, j = self.cut(data)
        k = self.cuts.get(frozenset((i, j)))
        if data.startswith(b"GET") and b"/revs" in data:
            self.look()
        if k is None:
            return None
        self.labels.add("network: " + k)
        if k == "refuse":
            return ("drop",)
        if k == "500":
            return "answer", b"HTTP/1.1 500 Broken\r\nContent-Length: 0\r\n\r\n"
        return ("mute",)

    # ---- processes
    def where(self, args):
        path = str(args[[str(a) for a in args].index("-C") + 1]).rstrip("/")
        return int(os.path.basename(os.path.dirname(path))[4:]), os.path.basename(path), path

    def handler(self, args):
        try:
            return self._handler(args)
        except OSError:
            raise
        except BaseException as e:
            self.wrong = self.wrong or e
            raise

    def _handler(self, args):
        i, n, path = self.where(args)
        s = self.servers[i]
        self.look()
        check(s.up and n in s.jobs, f"s{i} starts {args[-3:]} although it does not have this job")
        if "gc" in args:
            return 3, 0, None, b""
        if "backup" not in args:
            raise HarnessError(f"unexpected process {args}")
        uuid, start = args[-1], self.now
        rev = os.path.join(path, uuid + ".rev")
        fail = s.failing.get(n)
        d = 60 * s.minutes
        self.follow(s, n)

        def effect():
            if fail or not os.path.exists(rev):
                return
            with open(rev) as f:
                data = yaml.safe_load(f)
            data["stats"]["duration"] = float(d)
            with open(rev + ".new", "w") as f:
                yaml.safe_dump(data, f)
            os.rename(rev + ".new", rev)
            self.done[n].append((start, self.now, i, uuid))
            self.look()
        if fail == "lose":
            raise OSError("scripted")
        return d, 1 if fail else 0, effect, b""

    # ---- observations
    def own(self, i, n):
        try:
            revs = read_rev_files(os.path.join(self.servers[i].base, n))
        except FileNotFoundError:
            return {}
        return {u: meta.canonical(r) for u, r in revs.items() if not r.get("server") and "duration" in r.get("stats", {})}

    def look(self):
        for s in self.servers:
            if s.up and any(j.status.startswith("monitoring") for j in s.dm.jobs.values()):
                self.labels.add("followed a leader")
        for i in range(self.n):
            for n in self.names:
                o = self.own(i, n)
                states = self.states[i, n]
                if not states or states[-1][1] != o:
                    if states:
                        self.expired(i, n, states[-1][1], o)
                    states.append((self.now, o))

    def expired(self, i, n, before, after):
        """revisions that nobody can replace were not given up"""
        everything = {}
        for k in range(self.n):
            everything.update(before if k == i else self.states[k, n][-1][1] if self.states[k, n] else {})
        for u, r in before.items():
            lost = set(r["tags"]) - set(after[u]["tags"] if u in after else ())
            if u in after and not lost:
                continue
            self.labels.add("expired")
            for tag in sorted(lost & set(self.hours)):
                newer = [x for x in everything.values() if tag in x["tags"] and x["timestamp"] > r["timestamp"]]
                keep = SCHEDS[self.case["sched"]][tag]["keep"]
                check(len(newer) >= keep,
                      lambda: f"{n}: s{i} gave up the revision {u} tagged {tag}, but only {len(newer)} newer ones exist on all servers, {keep} are to be kept")
                age = (self.ds.loop.now() - r["timestamp"]).total_seconds()
                check(age > keep * self.hours[tag] * H - 5, lambda: f"{n}: s{i} gave up the revision {u} tagged {tag} after {age} s")

    def follow(self, s, n):
        """a server whose healthy peer clearly leads does not make backups"""
        t = self.now
        w = self.window()
        if len(self.hours) > 1:
            return  # a tag the leader catches up on later may be due here as well
        if self.cuts or t - self.disturbed < w or t - s.touched.get(n, 0) < w or n in s.failing:
            return
        mine = self.counts(s.i, n, t - H, t)
        for p in self.servers:
            if p is s or not p.up or n not in p.jobs or n in p.failing or t - p.since.get(n, t) < w or t - p.touched.get(n, 0) < w:
                continue
            theirs = self.counts(p.i, n, t - H, t)
            if any(q.up and n in q.jobs and max(self.counts(q.i, n, t - H, t)) >= min(theirs) for q in self.servers if q not in (s, p)):
                continue  # somebody else may be taken for the leader
            check(min(theirs) <= max(mine) + 1,
                  lambda: f"{n}: s{s.i} makes a backup at {t / H:.2f} h although s{p.i} leads with {min(theirs)} to {max(mine)} revisions; backups so far: {self.history(n)}")

    def counts(self, i, n, a, b):
        r = []
        for (t, o) in self.states[i, n]:
            if t <= a:
                r = [len(o)]
            elif t <= b:
                r.append(len(o))
        return r or [0]

    def window(self):
        return self.interval + 4 * len(self.names) * self.minutes * 60 + 1800

    def history(self, n):
        return [(round(a / H, 2), f"s{i}") for a, b, i, u in sorted(self.done[n])]

    # ---- events
    def happen(self, e):
        self.disturbed = self.now
        kind, args = e[0], e[1:]
        s = self.servers[args[0] % self.n] if args else None
        n = self.names[args[1] % len(self.names)] if len(args) > 1 and kind in ("fail", "lose", "job", "trigger") else None
        if kind == "stop" and s.up:
            self.stop(s)
            self.labels.add("server stopped")
        elif kind == "start" and not s.up:
            self.start(s)
        elif kind == "cut":
            j = args[1] % self.n
            if j == s.i:
                j = (j + 1) % self.n
            self.cuts[frozenset((s.i, j))] = args[2]
        elif kind == "heal":
            self.cuts.clear()
        elif kind in ("fail", "lose"):
            if n not in s.failing:
                s.failing[n] = kind
                self.ends(s, n)
                self.labels.add("backups fail")
        elif kind == "work":
            self.work(s)
        elif kind == "slow":
            s.minutes = args[1]
            self.minutes = max(self.minutes, s.minutes)
        elif kind == "job":
            if s.up:
                self.labels.add("job removed" if n in s.jobs else "job added")
                if n in s.jobs:
                    self.ends(s, n)
                    s.jobs.discard(n)
                else:
                    s.jobs.add(n)
                self.reload(s)
                if n in s.jobs:
                    self.cares(s, n)
        elif kind == "trigger":
            if s.up and n in s.jobs:
                self.ds.call(s.dm.jobs[n].run_immediately.set)
                s.touched[n] = self.now
        elif kind == "reload" and s.up:
            self.reload(s)
        self.disturbed = self.now

    def reload(self, s):
        self.ds.config(self.conf(s), f"conf{s.i}")
        self.ds.call(s.dm.reload)
        self.ds.loop.spin(30)

    def work(self, s):
        for n in list(s.failing):
            del s.failing[n]
            if s.up and n in s.jobs:
                self.cares(s, n)

    # ---- judgement
    def judge(self):
        for s in self.servers:
            for n in list(s.since):
                self.ends(s, n)
        w = self.window()
        for n, i, a, b in self.care:
            times = sorted({x for x, y, _, _ in self.done[n] if a <= y <= b} | {y for x, y, _, _ in self.done[n] if a <= y <= b})
            # revisions that exist already count
            for x, y in zip([a] + times, times + [b]):
                check(y - x <= w, lambda: f"{n}: no backup between {x / H:.2f} h and {y / H:.2f} h although s{i} ran all the time (interval {self.interval / H} h, slack {(w - self.interval) / H:.2f} h); "
                      f"backups: {self.history(n)}")
        for s in self.servers:
            for n, j in (s.dm.jobs.items() if s.up else ()):
                check(j._task is not None and not j._task.done(), f"the loop of {n} at s{s.i} ended")
        for n in self.names:
            if len({i for a, b, i, u in self.done[n] if a >= 0}) > 1:
                self.labels.add("several servers made backups")

    def converged(self):
        """after quiet times everybody knows what the others have"""
        self.look()
        w = self.window()
        for s in self.servers:
            for n in sorted(s.jobs):
                disk = {u: meta.canonical(r) for u, r in read_rev_files(os.path.join(s.base, n)).items()}
                for p in self.servers:
                    if p is s:
                        continue
                    states = self.states[p.i, n]
                    recent = [o for t, o in states if t > self.now - w]
                    old = [o for t, o in states if t <= self.now - w][-1:]
                    ok = [{u: tuple(r["tags"]) for u, r in o.items()} for o in old + recent] or [{}]
                    view = {u: tuple(r["orig_tags"]) for u, r in disk.items() if r["server"] == f"s{p.i}"}
                    check(view in ok, lambda: f"{n}: after {2 * w / H:.1f} h without disturbance s{s.i} believes that s{p.i} has {view}, which was not true for the last {w / H:.1f} h: {ok}")
                    if view:
                        self.labels.add("mirrored")


def run_case(case, env):
    d = env.dir()
    with Daemons(d, base=BASE + datetime.timedelta(seconds=case["start"])) as ds:
        w = World(case, d, ds)
        ds.handler = w.handler
        for at, e in sorted(case["events"], key=lambda x: x[0]):
            t = 2 * at * w.interval / 1000
            if t > ds.loop.vt:
                ds.loop.run(t - ds.loop.vt)
            if w.wrong:
                raise w.wrong
            w.happen(e)
        ds.loop.run(w.interval)
        if case["tail"]:
            for s in w.servers:
                if not s.up:
                    w.start(s)
                w.work(s)
            w.cuts.clear()
            w.disturbed = ds.loop.vt
            late = max([s.dm.jobs[n].backoff for s in w.servers for n in s.jobs] + [0])
            ds.loop.run(late + 2 * w.window())
            w.labels.add("quiet end")
        if w.wrong:
            raise w.wrong
        w.look()
        if case["tail"]:
            w.converged()
        w.judge()
        if ds.loop.errors:
            bad = [e for e in ds.loop.errors if "Task was destroyed" not in str(e.get("message"))]
            check(not bad, lambda: f"unhandled: {bad[:3]}")
    return Info(nontrivial="several servers made backups" in w.labels and bool(w.labels & {"server stopped", "backups fail", "job removed", "job added"} or any(x.startswith("network") for x in w.labels)),
                labels=sorted(w.labels))


CAMPAIGNS = [Campaign("cluster", case, run_case, "several servers made backups of a job and something failed or changed", batch=6)]

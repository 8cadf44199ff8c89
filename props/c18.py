"""C18 Status and check tell the truth about backup freshness."""
import datetime
import os

from hypothesis import strategies as st

from lib import meta
from lib.core import Campaign, Info, check
from lib.vloop import BASE, Daemons
from lib.world import fast_environment, install_clock, quiet_main, repo
from props.c16 import conf_of, sched, seconds

PROP = "C18"
TECHNIQUE = "property-based testing of check and status against reference formulas over generated histories, clocks and reports"
LEVEL = "exploration"
NOTE = "up to 4 jobs with up to 5 revisions each, ages around 1.5 x the shortest interval, changes while the daemon runs"
ASSUMPTIONS = []
CLOCK = None


def worker_init(env):
    global CLOCK
    fast_environment()
    quiet_main()


rev = st.fixed_dictionaries({
    # relative to 1.5 x the shortest interval, or absolute
    "age": st.one_of(st.tuples(st.just("edge"), st.sampled_from([0, 0, 1, -1, 2, -2, 60, -60, 3600])), st.tuples(st.just("abs"), st.integers(0, 40 * 86400)),
                     st.tuples(st.just("abs"), st.integers(0, 100))),
    "tags": st.lists(st.sampled_from(["daily", "weekly", "hourly", "manual:a", "manual:b", "old"]), max_size=3, unique=True),
    "orig": st.one_of(st.none(), st.none(), st.just(["daily"])),
    "server": st.sampled_from(["", "", "", "peer"]),
    "trust": st.sampled_from(["trusted", "distrusted", "verified"]),
    "complete": st.sampled_from([True, True, False]),
})
job = st.fixed_dictionaries({
    "sched": sched, "revs": st.lists(rev, max_size=5), "reports": st.integers(0, 2).map(lambda n: max(0, n - 0)), "junk": st.booleans(),
})
job0 = st.fixed_dictionaries({"sched": sched, "revs": st.lists(rev, max_size=5), "reports": st.sampled_from([0, 0, 0, 1, 2]), "junk": st.booleans()})
case = st.fixed_dictionaries({"jobs": st.lists(job0, min_size=1, max_size=4), "fresh": st.booleans(), "filter": st.sampled_from([None, None, "vm0", "^vm[01]$"]),
                              "later": st.integers(0, 3 * 86400)})


def setup(path, j):
    """-> records"""
    short = min(seconds(i) for i, k in j["sched"].values())
    revs = []
    for r in j["revs"]:
        a = r["age"]
        age = a[1] if a[0] == "abs" else int(1.5 * short) + a[1] if a[0] == "edge" else 0
        revs.append(dict(r, age=max(0, age)))
    h = meta.build(path, revs, BASE, conf_of(j["sched"]))
    q = os.path.join(path, "quarantine")
    os.makedirs(os.path.join(q, "chunks"), exist_ok=True)
    for n in range(j["reports"]):
        with open(os.path.join(q, meta.uid(n) + ".report"), "w") as f:
            f.write(f"uuid: {meta.uid(n)}\n")
    if j["junk"]:
        for n in ("x.txt", "chunks/abc", "tmp1234"):
            open(os.path.join(q, n), "w").close()
    return h


def overdue(h, sched, now):
    """age in seconds or 0"""
    done = [m for m in h if "duration" in m["stats"]]
    if not done:
        return 0
    age = now - max(m["timestamp"] for m in done)
    short = min(seconds(i) for i, k in sched.values())
    return age.total_seconds() if age > datetime.timedelta(seconds=1.5 * short) else 0


class FakeClient:
    """what `backy check -a` asks the daemon for"""
    jobs = []

    async def get_jobs(self):
        return list(self.jobs)

    async def close(self):
        pass


def run_case(case, env):
    from backy.daemon.api import Client
    d = env.dir()
    basedir = os.path.join(d, "base")
    os.makedirs(basedir)
    hist = {}
    for i, j in enumerate(case["jobs"]):
        hist[f"vm{i}"] = [] if case["fresh"] else setup(os.path.join(basedir, f"vm{i}"), j)
    conf = {
        "global": {"base-dir": basedir, "worker-limit": 1},
        "api": {"cli-default": {"token": "x"}},
        "schedules": {f"s{i}": conf_of(j["sched"]) for i, j in enumerate(case["jobs"])},
        "jobs": {f"vm{i}": {"schedule": f"s{i}", "source": {"type": "file", "filename": "/nonexistent"}} for i in range(len(case["jobs"]))},
    }
    labels = set()
    saved = Client.from_conf
    with Daemons(d) as ds:
        dm = ds.daemon(conf)
        if case["fresh"]:
            # the state changes while the daemon is up
            for i, j in enumerate(case["jobs"]):
                hist[f"vm{i}"] = setup(os.path.join(basedir, f"vm{i}"), j)
        for step in range(2):
            now = ds.loop.now()
            import re
            filt = re.compile(case["filter"]) if case["filter"] else None
            got = ds.call(dm.status, filt)
            want = [n for n in hist if not filt or filt.search(n)]
            check([x["job"] for x in got] == want or sorted(x["job"] for x in got) == sorted(want),
                  f"status lists {[x['job'] for x in got]} instead of {want}")
            rcs = []
            for i, j in enumerate(case["jobs"]):
                name = f"vm{i}"
                h = hist[name]
                late = overdue(h, j["sched"], now)
                done = [m for m in h if "duration" in m["stats"]]
                last = done[-1] if done else None
                what = f"{name} at {now}: schedule {j['sched']}, revisions {[(str(now - m['timestamp']), 'duration' in m['stats'], m['server']) for m in h]}"
                for x in got:
                    if x["job"] != name:
                        continue
                    check(x["sla"] == ("TOO OLD" if late else "OK"), f"{what}: sla is {x['sla']}")
                    check(x["sla_overdue"] == late, f"{what}: overdue is {x['sla_overdue']} instead of {late}")
                    check(x["last_time"] == (last and last["timestamp"]), f"{what}: last_time is {x['last_time']}")
                    check(x["last_duration"] == (last and last["stats"]["duration"]), f"{what}: last_duration is {x['last_duration']}")
                    tags = x["last_tags"]
                    check((tags is None) == (last is None), f"{what}: last_tags is {tags!r}")
                    if last:
                        check(sorted(tags.split(",") if tags else []) == sorted(last["tags"]), f"{what}: last_tags is {tags!r} instead of {last['tags']}")
                        key = [seconds(j["sched"][t][0]) if t in j["sched"] else 0 for t in (tags.split(",") if tags else [])]
                        check(key == sorted(key), f"{what}: last_tags {tags!r} are not sorted by interval")
                    man = {t for m in done for t in m["tags"] if t.startswith("manual:")}
                    check({t for t in x["manual_tags"].split(", ") if t} == man, f"{what}: manual_tags is {x['manual_tags']!r} instead of {man}")
                    n = len([m for m in done if not m["server"]])
                    check(x["local_revs"] == n, f"{what}: local_revs is {x['local_revs']} instead of {n}")
                    n = len([m for m in done if m["server"] and set(m["tags"]) != set(m["orig_tags"])])
                    check(x["unsynced_revs"] == n, f"{what}: unsynced_revs is {x['unsynced_revs']} instead of {n}")
                    check(x["problem_reports"] == j["reports"], f"{what}: problem_reports is {x['problem_reports']} instead of {j['reports']}")
                rc, out, err = ds_cli(ds, os.path.join(basedir, name), "check")
                expect = 2 if late else 1 if j["reports"] else 0
                check(rc == expect, f"{what}, {j['reports']} reports: check exits with {rc} instead of {expect}")
                rcs.append(expect)
                labels.add(("in time", "reports", "overdue")[expect])
            fake = FakeClient()
            fake.jobs = [{"name": n, "path": os.path.join(basedir, n), "status": "", "schedule": conf["schedules"][f"s{i}"]} for i, n in enumerate(hist)]
            try:
                Client.from_conf = classmethod(lambda cls, *a, **kw: fake)
                rc, out, err = ds_cli(ds, d, "-a", "check", config=os.path.join(d, "backy.conf"))
                check(rc == max(rcs), f"check of all jobs exits with {rc}, the single ones with {rcs}")
                one = "vm0$"
                rc, out, err = ds_cli(ds, d, "--jobs", one, "check", config=os.path.join(d, "backy.conf"))
                check(rc == rcs[0], f"check of {one} exits with {rc} instead of {rcs[0]}")
            finally:
                Client.from_conf = saved
            if len(set(rcs)) > 1:
                labels.add("mixed")
            ds.loop.vt += case["later"]
    return Info(any(hist.values()), labels)


def ds_cli(ds, path, *argv, config=None):
    """the command runs its own loop; keep ours"""
    import asyncio
    try:
        return meta.cli(path, *argv, config=config)
    finally:
        asyncio.set_event_loop(ds.loop)


CAMPAIGNS = [Campaign("freshness", case, run_case, "at least one job has revisions", batch=12)]

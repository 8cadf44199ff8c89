"""C17 Scheduling is periodic, spread, and catches up on missed backups."""
import datetime
import os
import types

from hypothesis import strategies as st

from lib import meta
from lib.core import Campaign, Info, check
from lib.world import UTC, fast_environment, install_clock, log, quiet_main, repo, schedule
from props.c16 import conf_of, interval, sched, seconds

PROP = "C17"
TECHNIQUE = "property-based testing of grid laws (metamorphic over time and spread) and of catching up against a reference rule"
LEVEL = "exploration"
NOTE = "arbitrary schedules of up to 3 tags, times within 1970-2100 (whole seconds and microseconds), spreads, histories of up to 6 revisions"
ASSUMPTIONS = ["times with fractions of seconds are judged with a tolerance of 1 ms (the implementation computes in floating point)"]
CLOCK = None


def worker_init(env):
    global CLOCK
    fast_environment()
    quiet_main()
    CLOCK = install_clock()


EPOCH = datetime.datetime(1970, 1, 1, tzinfo=UTC)
EPS = datetime.timedelta(milliseconds=1)
time_ = st.tuples(st.one_of(st.integers(0, 4 * 10 ** 9), st.integers(19000, 21000).map(lambda d: d * 86400)), st.sampled_from([0, 0, 0, 1, 999999, 500000]))
case = st.fixed_dictionaries({
    "sched": sched,
    "now": time_,
    "spread": st.one_of(st.integers(0, 10 ** 7), st.sampled_from([0, 1, 3600, 86400])),
    "dspread": st.integers(0, 10 ** 6),
    "steps": st.lists(st.one_of(st.integers(1, 10 ** 6), st.integers(1, 4000)), max_size=4),
    "revs": st.lists(st.fixed_dictionaries({
        # age relative to the interval of a tag
        "age": st.one_of(st.tuples(st.integers(0, 2), st.integers(0, 3), st.sampled_from([0, 1, -1, 5, -5, 100, -100])),
                         st.tuples(st.just(0), st.just(0), st.integers(0, 10 ** 6))),
        "tags": st.lists(st.sampled_from(["daily", "weekly", "hourly", "manual:a", "old"]), max_size=3, unique=True),
        "server": st.sampled_from(["", "", "", "peer"]),
        "trust": st.sampled_from(["trusted", "distrusted"]),
        "complete": st.sampled_from([True, True, True, False]),
    }), max_size=6),
})


def mod(td, iv):
    """distance of td to the nearest multiple of iv"""
    r = td % iv
    return min(r, iv - r)


def run_grid(case, env):
    sched = case["sched"]
    s = schedule(conf_of(sched))
    empty = types.SimpleNamespace(history=[], clean_history=[], last_by_tag=lambda: {})
    now = EPOCH + datetime.timedelta(seconds=case["now"][0], microseconds=case["now"][1])
    eps = EPS if case["now"][1] else datetime.timedelta(0)
    spread = case["spread"]
    ivs = {t: datetime.timedelta(seconds=seconds(i)) for t, (i, k) in sched.items()}
    labels = set()

    def ideal(t, at, spread):
        """the grid of one tag, seen through a schedule with only this tag"""
        one = schedule(conf_of({t: sched[t]}))
        CLOCK.t = at
        return one.next(at, spread, empty)[0]

    nexts = {}
    for t, iv in ivs.items():
        n = ideal(t, now, spread)
        nexts[t] = n
        check(n > now - eps, f"next {t} after {now} is {n}, which is not in the future (interval {iv}, spread {spread})")
        check(n - now <= iv + eps, f"next {t} after {now} is {n}: more than one interval ({iv}) away")
        at = now
        for step in case["steps"]:
            at = at + datetime.timedelta(seconds=step)
            m = ideal(t, at, spread)
            check(mod(m - n, iv) <= eps, f"{t}: {n} (asked at {now}) and {m} (asked at {at}) are not on one grid of {iv}")
            check(at - eps < m <= at + iv + eps, f"{t}: next after {at} is {m}")
            if at + eps < n:
                check(abs(m - n) <= eps, f"{t}: asked at {now} the next is {n}, asked at {at} it is {m}")
                labels.add("stable")
        m = ideal(t, n, spread)
        check(abs(m - n - iv) <= eps, f"{t}: the next after {n} is {m}, not one interval ({iv}) later")
        z = ideal(t, now, spread + case["dspread"])
        check(mod(z - n - datetime.timedelta(seconds=case["dspread"]), iv) <= eps,
              f"{t}: spread {spread} gives {n}, spread {spread + case['dspread']} gives {z}: not shifted by the spread (interval {iv})")
    CLOCK.t = now
    n, tags = s.next(now, spread, empty)
    first = min(nexts.values())
    check(abs(n - first) <= eps, f"the next backup is {n}, the earliest tag is due at {first}")
    return Info(len(sched) > 1, labels)


def run_missed(case, env):
    path = os.path.join(env.dir(), "vm")
    sched = case["sched"]
    conf = conf_of(sched)
    names = sorted(sched)
    now = EPOCH + datetime.timedelta(seconds=case["now"][0] + 10 ** 7)
    revs = []
    for r in case["revs"]:
        a = r["age"]
        revs.append(dict(r, age=max(0, a[1] * seconds(sched[names[a[0] % len(names)]][0]) + a[2])))
    h = meta.build(path, revs, now, conf)
    CLOCK.t = now
    r = repo(path, conf)
    spread = case["spread"]
    time, tags = r.schedule.next(now, spread, r)
    empty = types.SimpleNamespace(history=[], clean_history=[], last_by_tag=lambda: {})
    due = {}
    for t in sched:
        due[t] = schedule({t: conf[t]}).next(now, spread, empty)[0]
    regular = min(due.values())
    due_tags = {t for t in sched if due[t] == regular}
    overdue = set()
    for t, (i, k) in sched.items():
        last = [m["timestamp"] for m in h if t in m["tags"] and "duration" in m["stats"]]
        if not last or max(last) <= now - datetime.timedelta(seconds=seconds(i)):
            overdue.add(t)
    what = f"at {now} with {sched}, spread {spread}, history {[(str(now - m['timestamp']), m['tags'], 'duration' in m['stats']) for m in h]}"
    if overdue and h and regular > now + datetime.timedelta(minutes=5):
        check(time == now and set(tags) == overdue, f"{what}: next is {time} {sorted(tags)} instead of now with {sorted(overdue)}")
        label = "catch up"
    else:
        check(time == regular, f"{what}: next is {time} instead of {regular}")
        check(set(tags) == due_tags | overdue, f"{what}: tags are {sorted(tags)} instead of {sorted(due_tags | overdue)}")
        label = "regular"
    check(r.schedule.next(now, spread, r) == (time, tags), "asking again gives another answer")
    return Info(bool(h), [label, "overdue" if overdue else "in time"])


jcase = st.fixed_dictionaries({
    "sched": sched,
    "names": st.lists(st.one_of(st.integers(0, 10 ** 6).map(lambda i: f"vm{i}"), st.text("abcdefghijklmnopqrstuvwxyz0123456789-._", min_size=1, max_size=12)),
                      min_size=24, max_size=30, unique=True),
    "now": time_,
})


def run_jobs(case, env):
    """the spread of real jobs: depends on the name only, within the longest interval, differs between jobs"""
    from backy.daemon.scheduler import Job
    d = env.dir()
    from pathlib import Path
    s = schedule(conf_of(case["sched"]))
    daemon = types.SimpleNamespace(base_dir=Path(d), schedules={"s": s}, peers={}, loop=None)
    longest = max(seconds(i) for i, k in case["sched"].values())
    spreads = {}
    for name in case["names"]:
        if name in (".", ".."):
            continue
        vals = set()
        for again in range(2):
            j = Job(daemon, name, log)
            j.configure({"schedule": "s", "source": {"type": "file", "filename": f"/nonexistent/{again}"}})
            vals.add(j.spread)
        check(len(vals) == 1, f"the spread of {name} is not stable: {vals}")
        v = spreads[name] = vals.pop()
        check(0 <= v <= longest, f"the spread of {name} is {v}, outside 0..{longest}")
    if longest >= 600:
        check(len(set(spreads.values())) > len(spreads) // 2, f"{len(spreads)} jobs share {len(set(spreads.values()))} spreads")
        # across the whole interval, not just a part of it
        check(any(v > longest // 4 for v in spreads.values()) and any(v < longest - longest // 4 for v in spreads.values()),
              f"spreads {sorted(spreads.values())} do not cover 0..{longest}")
    return Info(longest >= 600)


SCRIPT = """
import json, sys, types
from pathlib import Path
from lib.world import log, schedule
from backy.daemon.scheduler import Job
conf, names, d = json.loads(sys.argv[1])
daemon = types.SimpleNamespace(base_dir=Path(d), schedules={"s": schedule(conf)}, peers={}, loop=None)
out = {}
for n in names:
    j = Job(daemon, n, log)
    j.configure({"schedule": "s", "source": {"type": "file", "filename": "/nonexistent"}})
    out[n] = j.spread
print("SPREADS" + json.dumps(out))
"""


def run_restart(case, env):
    """another process computes the same spreads"""
    import json
    import subprocess
    import sys
    d = env.dir()
    names = [n for n in case["names"] if n not in (".", "..")]
    arg = json.dumps([conf_of(case["sched"]), names, d])
    got = []
    for hashseed in ("1", "77"):
        e = dict(os.environ, PYTHONHASHSEED=hashseed)
        e["PYTHONPATH"] = os.pathsep.join(p for p in sys.path if p)
        p = subprocess.run([sys.executable, "-c", SCRIPT, arg], env=e, cwd=d, capture_output=True, text=True, timeout=90)
        line = [x for x in p.stdout.splitlines() if x.startswith("SPREADS")]
        check(p.returncode == 0 and line, f"computing spreads in a new process failed: {p.stderr[-500:]}")
        got.append(json.loads(line[0][7:]))
    check(got[0] == got[1], f"spreads differ between processes: {[(n, got[0][n], got[1][n]) for n in names if got[0][n] != got[1][n]][:5]}")
    return Info(True)


CAMPAIGNS = [
    Campaign("restart", jcase, run_restart, "all", batch=1, max_cases=3, weight=0.1),
    Campaign("grid", case, run_grid, "more than one schedule tag", batch=150),
    Campaign("missed", case, run_missed, "some history exists", batch=100),
    Campaign("jobs", jcase, run_jobs, "intervals of at least 10 minutes", batch=6, weight=0.3),
]

"""C16 Expiry keeps what the schedule promises and drops the rest."""
import datetime
import os

from hypothesis import strategies as st

from lib import meta
from lib.core import Campaign, Info, check
from lib.world import UTC, fast_environment, install_clock, quiet_main, repo

PROP = "C16"
TECHNIQUE = "property-based testing of expiry against a declarative retention rule, with stateful simulation of backup/expire histories"
LEVEL = "exploration"
NOTE = "schedules of up to 3 tags, up to 14 revisions with ages around the thresholds; simulations of up to ~40 backups"
ASSUMPTIONS = ["`keep` is at least 1", "timestamps within one history are distinct"]
CLOCK = None


def worker_init(env):
    global CLOCK
    fast_environment()
    quiet_main()
    CLOCK = install_clock()


BASE = datetime.datetime(2024, 3, 1, 12, 0, 0, tzinfo=UTC)
UNITS = {"": 1, "s": 1, "m": 60, "h": 3600, "d": 86400, "w": 7 * 86400}
interval = st.one_of(
    st.sampled_from(["1d", "1d", "7d", "1w", "1h", "2h", "90m", "30d", "3600", "36h", "1s", "45s", "12h"]),
    st.tuples(st.integers(1, 100), st.sampled_from(list(UNITS))).map(lambda x: f"{x[0]}{x[1]}"))
SCHED = ["daily", "weekly", "hourly"]
sched = st.dictionaries(st.sampled_from(SCHED), st.tuples(interval, st.integers(1, 5)), min_size=1, max_size=3)


def seconds(s):
    return int(s[:-1]) * UNITS[s[-1]] if s[-1] in UNITS else int(s)


# an age is tied to the threshold of a schedule tag or absolute
age = st.one_of(
    st.tuples(st.just("near"), st.integers(0, 2), st.sampled_from([0, 0, 1, -1, 2, -2, 30, -30, 3600, -3600])),
    st.tuples(st.just("mult"), st.integers(0, 2), st.integers(0, 12), st.integers(-5, 5)),
    st.tuples(st.just("abs"), st.integers(0, 60 * 86400)),
)
TAGS = SCHED + ["manual:a", "manual:b", "old", "manual"]
rev = st.fixed_dictionaries({
    "age": age, "tags": st.lists(st.sampled_from(SCHED * 3 + TAGS), max_size=3, unique=True),
    "server": st.sampled_from(["", "", "", "", "peer"]),
    "trust": st.sampled_from(["trusted", "trusted", "distrusted", "verified"]),
    "complete": st.sampled_from([True] * 5 + [False]),
})
case = st.fixed_dictionaries({
    "sched": sched, "revs": st.lists(rev, min_size=1, max_size=14), "stale": st.booleans(),
    "later": st.lists(st.integers(0, 20 * 86400), max_size=2),
})


def conf_of(s):
    return {t: {"interval": i, "keep": k} for t, (i, k) in s.items()}


def rule(model, sched, now):
    """{uuid: record} after expiry"""
    out = {}
    for u, m in model.items():
        tags = set()
        for t in m["tags"]:
            if t.startswith("manual:"):
                tags.add(t)
            elif t in sched:
                newer = sum(1 for o in model.values() if t in o["tags"] and o["timestamp"] > m["timestamp"])
                i, k = sched[t]
                old = now - m["timestamp"] > datetime.timedelta(seconds=k * seconds(i))
                if not (newer >= k and old):
                    tags.add(t)
        if tags or m["server"]:
            out[u] = dict(m, tags=sorted(tags))
    return out


def run_case(case, env):
    path = os.path.join(env.dir(), "vm")
    sched = case["sched"]
    CLOCK.t = BASE
    names = sorted(sched)
    revs = []
    for r in case["revs"]:
        a = r["age"]
        if a[0] == "abs":
            s = a[1]
        else:
            i, k = sched[names[a[1] % len(names)]]
            s = k * seconds(i) + a[2] if a[0] == "near" else a[2] * seconds(i) + a[3]
        revs.append(dict(r, age=max(0, s)))
    conf = conf_of(sched)
    stale = repo(path, conf) if os.path.isdir(os.path.dirname(path)) and case["stale"] else None
    model = {m["uuid"]: meta.canonical(m) for m in meta.build(path, revs, BASE, conf)}
    labels = set()
    now = BASE
    for step in [0] + case["later"]:
        now += datetime.timedelta(seconds=step)
        CLOCK.t = now
        want = rule(model, sched, now)
        r = stale or repo(path, conf)
        r.expire()
        got = meta.on_disk(path)
        for u in set(want) | set(got):
            m = model[u]
            check(got.get(u) == want.get(u), lambda: (
                f"expiry with {sched} at {now}: revision {u} of age {now - m['timestamp']} on {m['server'] or 'this server'} with {m['tags']} "
                f"becomes {got.get(u) and got[u]['tags']} instead of {want.get(u) and want[u]['tags']}; all: "
                f"{[(str(now - x['timestamp']), x['tags']) for x in sorted(model.values(), key=lambda x: x['timestamp'])]}"))
        mem = {x.uuid: sorted(x.tags) for x in r.history}
        check(mem == {u: m["tags"] for u, m in want.items()}, f"in memory the history is {mem} afterwards")
        for t, (i, k) in sched.items():
            before = sorted((m["timestamp"], u) for u, m in model.items() if t in m["tags"])[-k:]
            for _, u in before:
                check(u in got and t in got[u]["tags"], f"one of the newest {k} revisions tagged {t} is gone")
        if want != model:
            labels.add("tag" if set(want) == set(model) else "revision")
        model = want
    r = repo(path, conf)
    r.expire()
    check(meta.on_disk(path) == model, "expiring again changes something")
    return Info(bool(labels), labels)


scase = st.fixed_dictionaries({
    "sched": sched,
    # per backup: seconds since the previous one, tags bit mask, manual tag, expire afterwards
    "steps": st.lists(st.tuples(st.one_of(st.integers(1, 3 * 86400), st.integers(1, 7200)), st.integers(1, 7), st.sampled_from([0, 0, 0, 0, 1]),
                                st.sampled_from([1, 1, 1, 0])), min_size=5, max_size=40),
})


def run_sim(case, env):
    """histories as the job loop makes them"""
    path = os.path.join(env.dir(), "vm")
    os.makedirs(path)
    sched = case["sched"]
    conf = conf_of(sched)
    names = sorted(sched)
    now = BASE
    model = {}
    dropped = 0
    for n, (dt, mask, man, exp) in enumerate(case["steps"]):
        now += datetime.timedelta(seconds=dt)
        tags = [t for i, t in enumerate(names) if mask >> i & 1] or [names[0]]
        if man:
            tags.append(f"manual:{n}")
        m = meta.record(n, meta.utc(now), tags)
        meta.write_rev(path, m)
        model[m["uuid"]] = meta.canonical(m)
        if exp:
            CLOCK.t = now
            want = rule(model, sched, now)
            repo(path, conf).expire()
            got = meta.on_disk(path)
            check(got == want, lambda: f"backup {n} with {sched}: after expiry {[(str(now - x['timestamp']), x['tags']) for x in got.values()]} "
                  f"instead of {[(str(now - x['timestamp']), x['tags']) for x in want.values()]}")
            dropped += len(model) - len(want)
            model = want
    return Info(dropped > 0, [f"dropped {min(dropped, 9)}"])


CAMPAIGNS = [
    Campaign("expire", case, run_case, "at least one tag was taken off", batch=80),
    Campaign("histories", scase, run_sim, "at least one revision was removed", batch=20, weight=0.5),
]

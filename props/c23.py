"""C23 A job yields to a leading server but never starves."""
import asyncio
import datetime
import json
import os
import re

import yaml
from hypothesis import strategies as st

from lib import meta
from lib.core import Campaign, HarnessError, Info, check
from lib.vloop import BASE, Daemons
from lib.world import fast_environment, fast_yaml, quiet_main

PROP = "C23"
TECHNIQUE = "model-based testing of the leader election and the wait for the leader in virtual time against scripted peers"
LEVEL = "exploration"
NOTE = "up to 3 peers with up to 6 scripted answers each (delays, errors, malformed data), triggers at any time"
ASSUMPTIONS = ["times within 10 s of the five minute margins are not generated"]


def worker_init(env):
    fast_environment()
    quiet_main()
    fast_yaml()


NAMES = ["vm1", "a.b", "x+y", "vm$"]
# names that a sloppy filter would confuse with these
OTHERS = {"vm1": ["vm10", "xvm1"], "a.b": ["axb", "a-b"], "x+y": ["xy", "xxy"], "vm$": ["vm", "vm0"]}
STATUS = ["running (fast)", "running (slow)", "waiting for deadline", "waiting for worker slot (fast)", "monitoring (other)", "checking neighbours", "failed", "finished", ""]
near = st.sampled_from([None, None, -100000, -4000, -310, -290, -30, 0, 30, 290, 310, 4000, 100000])
entry = st.fixed_dictionaries({
    "revs": st.integers(0, 6), "last": near, "next": near, "status": st.sampled_from(STATUS + ["waiting for deadline", "running (slow)"]),
})
busy = st.fixed_dictionaries({"revs": st.integers(3, 6), "last": st.sampled_from([None, -100000, -310]), "next": st.sampled_from([None, None, 0, -30, 290]),
                              "status": st.sampled_from(["running (fast)", "running (slow)", "waiting for worker slot (slow)"])})
stopped = st.fixed_dictionaries({"revs": st.integers(3, 6), "last": st.sampled_from([None, -100000, -310]), "next": st.sampled_from([None, None, 0, 30]), "status": st.just("")})
MALFORMED = ["notjson", "empty", "null", "dict", "string", "number", "listnull", "listlist", "nofields", "badtime", "naivetime", "nullrevs", "strrevs", "nolast", "timenumber"]
answer = st.one_of(
    st.tuples(st.just("ok"), busy), st.tuples(st.just("ok"), busy), st.tuples(st.just("ok"), busy), st.tuples(st.just("ok"), busy),
    st.tuples(st.just("ok"), entry), st.tuples(st.just("ok"), stopped),
    st.tuples(st.just("error"), st.sampled_from(["connect", "disconnect", "timeout", "401", "404", "500", "503", "payload", "os"])),
    st.tuples(st.just("bad"), st.sampled_from(MALFORMED)),
)
answer = st.tuples(answer, st.sampled_from([0, 0, 0, 1, 7, 29]))
peer = st.fixed_dictionaries({"answers": st.lists(answer, min_size=1, max_size=6), "others": st.sampled_from([0, 0, 1, 2, 3])})
case = st.fixed_dictionaries({
    "name": st.sampled_from([0, 0, 1, 2, 3]), "peers": st.lists(peer, min_size=1, max_size=3),
    "own": st.integers(0, 3), "incomplete": st.integers(0, 2), "remote": st.integers(0, 3),
    "fresh": st.booleans(),
    # before the deadline, or after it
    "triggers": st.lists(st.one_of(st.integers(-2000, 4000), st.integers(0, 40)), max_size=2),
})


class Response:
    def __init__(self, data, text=None):
        self.data, self.text_ = data, text

    status = 200
    ok = True

    async def json(self, **kw):
        if self.text_ is not None:
            return json.loads(self.text_)
        return self.data

    async def text(self):
        return self.text_ if self.text_ is not None else json.dumps(self.data)

    async def read(self):
        return (await self.text()).encode()

    def release(self):
        pass

    def close(self):
        pass

    def raise_for_status(self):
        pass

    async def wait_for_close(self):
        pass


def http_error(status):
    from unittest import mock

    from aiohttp import ClientResponseError
    return ClientResponseError(mock.Mock(real_url="http://peer"), (), status=status, message="scripted")


class Peers:
    def __init__(self, case, name, loop):
        self.case, self.name, self.loop = case, name, loop
        self.asked = [0] * len(case["peers"])
        self.times = []
        self.due = None
        self.dead = False

    def stamp(self, off):
        return None if off is None else (self.due + datetime.timedelta(seconds=off)).isoformat()

    def body(self, p, e):
        def job(name, e):
            return {"job": name, "sla": "OK", "sla_overdue": 0, "status": e["status"], "last_time": self.stamp(e["last"]), "last_tags": None, "last_duration": None,
                    "next_time": self.stamp(e["next"]), "next_tags": None, "manual_tags": "", "problem_reports": 0, "unsynced_revs": 0, "local_revs": e["revs"]}
        jobs = [job(self.name, e)] if e is not None else []
        o = self.case["peers"][p]["others"]
        # tempting, but not this job
        other = {"revs": 9, "last": None, "next": 0, "status": "running (fast)"}
        for i, n in enumerate(OTHERS[self.name]):
            if o & (i + 1):
                jobs.insert(0 if o == 3 else len(jobs), job(n, other))
        return jobs

    def install(self):
        import aiohttp
        self.saved = aiohttp.ClientSession._request
        me = self

        async def _request(session, method, url, **kw):
            return await me.answer(str(session._base_url or ""), method, str(url), kw)
        aiohttp.ClientSession._request = _request

    def remove(self):
        import aiohttp
        aiohttp.ClientSession._request = self.saved

    async def answer(self, base, method, url, kw):
        import aiohttp
        p = int(re.search(r"peer(\d+)", base + url).group(1))
        if self.dead:
            raise aiohttp.ClientConnectionError("down")
        if "/v1/status" not in url:
            raise http_error(404)
        n = self.asked[p]
        self.asked[p] += 1
        self.times.append((p, self.loop.vt))
        answers = self.case["peers"][p]["answers"]
        (kind, what), delay = answers[min(n, len(answers) - 1)]
        if delay:
            await asyncio.sleep(delay)
        filt = (kw.get("params") or {}).get("filter")

        def visible(jobs):
            return [j for j in jobs if not filt or re.compile(filt).search(j["job"])]
        if kind == "ok":
            return Response(visible(self.body(p, what)))
        if kind == "error":
            if what == "timeout":
                await asyncio.sleep(30 - delay)
                raise asyncio.TimeoutError()
            if what == "os":
                raise aiohttp.ClientOSError(104, "reset")
            if what == "payload":
                raise aiohttp.ClientPayloadError("truncated")
            raise {"connect": aiohttp.ClientConnectionError("refused"), "disconnect": aiohttp.ServerDisconnectedError()}.get(what) or http_error(int(what))
        good = {"revs": 8, "last": None, "next": 0, "status": "running (fast)"}
        jobs = self.body(p, good)
        j = [x for x in jobs if x["job"] == self.name][0]
        if what == "notjson":
            return Response(None, text="<html>")
        simple = {"empty": [], "null": None, "dict": {}, "string": "abc", "number": 7, "listnull": [None], "listlist": [[]], "nofields": [{}]}
        if what in simple:
            return Response(simple[what])
        if what == "badtime":
            j["last_time"] = "yesterday"
        elif what == "timenumber":
            j["next_time"] = 12345
        elif what == "naivetime":
            j["last_time"] = "2024-03-01T12:00:00"
            j["next_time"] = "2024-03-01T12:00:00"
        elif what == "nullrevs":
            j["local_revs"] = None
        elif what == "strrevs":
            j["local_revs"] = "many"
        elif what == "nolast":
            del j["last_time"]
        return Response(visible(jobs))


def model(case, own, strict):
    """-> (outcome, time of the decision relative to the deadline, labels); not strict: a senseless answer of one peer may end the election"""
    labels = set()
    peers = case["peers"]
    asked = [1] * len(peers)
    triggers = sorted(t for t in case["triggers"])
    early = [t for t in triggers if t < 0]
    if early:
        return "own", early[0], {"triggered before the deadline"}
    triggers = [t + .37 for t in triggers]

    def nth(p, n):
        a = peers[p]["answers"]
        (kind, what), delay = a[min(n, len(a) - 1)]
        if kind == "error" and what == "timeout":
            delay = 30
        return kind, what, delay

    t = max(nth(p, 0)[2] for p in range(len(peers)))
    leader, most = None, own
    maybe = False
    for p in range(len(peers)):
        kind, what, delay = nth(p, 0)
        if kind == "ok" and what["revs"] > most:
            leader, most, e = p, what["revs"], what
        elif kind == "bad" and what == "naivetime" and 8 > most:
            leader, most, e = p, 8, "naive"
        elif kind == "error":
            labels.add("peer fails")
        elif kind == "bad":
            labels.add("unknown to a peer" if what == "empty" else "malformed answer")
            if what in ("dict", "nullrevs", "strrevs"):
                maybe = True
    if leader is None:
        return "own", t, labels | {"no leader"}
    labels.add("leader")
    if maybe and not strict:
        return "own", t, labels
    n = 0
    while True:
        if e == "naive":
            return "own", t, labels | {"malformed while monitoring"}
        if e["last"] is not None and e["last"] > -300:
            return "yield", t, labels | {"leader finished"}
        if not e["status"]:
            return "own", t, labels | {"leader stopped"}
        if e["next"] is not None and e["next"] > 300:
            return "own", t, labels | {"leader not scheduled"}
        pend = [x for x in triggers if x <= t + 300]
        if pend:
            return "own", max(t, pend[0]), labels | {"triggered while monitoring"}
        t += 300
        n += 1
        if n > 30:
            return "wait", t, labels | {"still waiting"}
        kind, what, delay = nth(leader, n)
        t += delay
        if kind == "error":
            return "own", t, labels | {"leader fails"}
        if kind == "bad":
            if what == "naivetime":
                e = "naive"
                continue
            if what in ("nullrevs", "strrevs"):
                # the number of revisions does not matter any more
                e = {"last": None, "next": 0, "status": "running (fast)"}
                labels.add("malformed while monitoring")
                continue
            return "own", t, labels | {"malformed while monitoring"}
        e = what
        labels.add("monitored")


def run_case(case, env):
    d = env.dir()
    basedir = os.path.join(d, "base")
    name = NAMES[case["name"]]
    path = os.path.join(basedir, name)
    os.makedirs(path)
    revs = []
    if not case["fresh"]:
        for i in range(case["own"]):
            revs.append({"age": 1000 + i, "tags": ["daily"], "server": "", "trust": "trusted", "complete": True})
        # (incomplete revisions alone would make it due at once)
        for i in range(case["incomplete"] if case["own"] or case["remote"] else 0):
            revs.append({"age": 500 + i, "tags": ["daily"], "server": "", "trust": "trusted", "complete": False})
        for i in range(case["remote"]):
            revs.append({"age": 2000 + i, "tags": ["daily"], "server": f"peer{i % len(case['peers'])}", "trust": "trusted", "complete": True})
    sched = {"daily": {"interval": "1d", "keep": 9}}
    meta.build(path, revs, BASE, sched)
    own = 0 if case["fresh"] else case["own"]
    spawned = []

    def handler(args):
        spawned.append(("callback" if args[0] == "/cb" else "backup" if "backup" in args else "gc", ds.loop.vt))
        if "backup" in args:
            f = os.path.join(path, args[-1] + ".rev")

            def effect():
                with open(f) as fh:
                    data = yaml.safe_load(fh)
                data["stats"]["duration"] = 1.0
                with open(f + ".new", "w") as fh:
                    yaml.safe_dump(data, fh)
                os.rename(f + ".new", f)
            return 3, 0, effect, b""
        return 0, 0, None, b""

    conf = {
        "global": {"base-dir": basedir, "worker-limit": 1, "backup-completed-callback": "/cb"},
        "schedules": {"s": sched}, "jobs": {name: {"schedule": "s", "source": {"type": "file", "filename": "/x"}}},
        "peers": {f"peer{i}": {"url": f"http://peer{i}:1", "token": "t"} for i in range(len(case["peers"]))},
    }
    with Daemons(d, handler) as ds:
        peers = Peers(case, name, ds.loop)
        peers.install()
        try:
            dm = ds.daemon(conf)
            ds.loop.spin()
            due = ds.call(dm.status)[0]["next_time"]
            if due is None:
                raise HarnessError("due at once")
            at = (due - BASE).total_seconds()
            peers.due = due
            case = dict(case, triggers=[t for t in case["triggers"] if at + t > 1])
            for t in case["triggers"]:
                ds.loop.call_at(at + (t if t < 0 else t + .37), dm.jobs[name].run_immediately.set)
            what = (f"{name} with {own} complete own revisions due at {due}, triggers {case['triggers']}, peers "
                    f"{[[a for a, dl in p['answers']] for p in case['peers']]} (delays {[[dl for a, dl in p['answers']] for p in case['peers']]})")
            lenient = model(case, own, False)
            outcome, when, labels = model(case, own, True)
            if lenient != (outcome, when, labels):
                ds.loop.run(at + lenient[1] + 0.05)
                ds.loop.spin(100)
                if [k for k, t in spawned] == ["backup"]:
                    outcome, when, labels = lenient
            if ds.loop.vt < at + when - 0.1:
                ds.loop.run(at + when - 0.05 - ds.loop.vt)
                check(not spawned, f"{what}: {spawned} although the decision was to be made at {when} s after the deadline ({outcome}: {sorted(labels)})")
                ds.loop.run(0.1)
            else:
                ds.loop.run(max(0, at + when + 0.05 - ds.loop.vt))
            ds.loop.spin(100)
            if outcome == "own":
                check([k for k, t in spawned] == ["backup"], f"{what}: {spawned} instead of a backup {when} s after the deadline ({sorted(labels)})")
            elif outcome == "yield":
                kinds = [k for k, t in spawned]
                check(kinds == ["callback"] or kinds[:2] == ["callback", "backup"] and any(0 <= t <= when for t in case["triggers"]), f"{what}: {spawned} instead of leaving it to the peer {when} s after the deadline ({sorted(labels)})")
            else:
                check(not spawned, f"{what}: {spawned} while the peer is to be waited for")
            # whatever happened, the job is alive and works on its own when nobody else does
            peers.dead = True
            n = len([1 for k, t in spawned if k == "backup"])
            ds.loop.run(2 * 86400 + 1000)
            later = [t for k, t in spawned if k == "backup"][n:]
            check(later, f"{what}: nothing happened within two days after {outcome} at {when} ({spawned})")
            if outcome == "own" and when >= 0 and ("triggered while monitoring" in labels and len(case["triggers"]) == 1 or not case["triggers"]):
                check(later[0] > at + when + 12 * 3600, f"{what}: another backup {later[0] - at - when} s after the own one, which nobody asked for")
        finally:
            peers.remove()
    return Info("leader" in labels, labels | {outcome})


CAMPAIGNS = [
    Campaign("leader", case, run_case, "some peer owns more revisions", weight=1, batch=25),
]

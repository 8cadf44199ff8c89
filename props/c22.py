"""C22 Metadata of peer servers is mirrored and local edits reach their owner."""
import asyncio
import fcntl
import itertools
import json
import logging
import os
import re
import shutil

from hypothesis import strategies as st

from lib import meta
from lib.core import Campaign, Info, Violation, check
from lib.memnet import Net
from lib.vloop import BASE, Daemons
from lib.world import fast_environment, fast_yaml, log, quiet_main

PROP = "C22"
TECHNIQUE = "stateful property-based testing of several servers over a faulty in-memory network against a reference model"
LEVEL = "exploration"
NOTE = "2-3 daemons with their real HTTP interfaces and clients, up to 12 steps, scripted faults per connection and request, concurrent pulls, pushes and edits"
ASSUMPTIONS = ["a peer that answers with an error status may count as unreachable or as having nothing",
               "a pull may overwrite edits of mirrored revisions that were not pushed yet",
               "different servers own different revisions, except for revisions copied to another server by hand",
               "peers are trusted not to send hostile revision ids"]

NAMES = ["vm", "vm", "a.b-c", "x y", "ü+1", "q?z#%41"]
TAGS = ["daily", "weekly", "manual:a", "manual:b"]


def worker_init(env):
    fast_environment()
    quiet_main()
    fast_yaml()
    logging.disable(logging.CRITICAL)


tags = st.lists(st.sampled_from(TAGS), max_size=2, unique=True)
sv = st.integers(0, 2)
BODY = [b"", b"<html>", b"null", b"{}", b'"x"', b"[null]", b"[{}]", b'[{"uuid": "a"}]', b"[1", b"7", b'{"revs": []}']
act = st.one_of(
    st.none(), st.none(), st.none(),
    st.tuples(st.sampled_from(["drop", "mute", "silent"])),
    st.tuples(st.just("lose"), st.sampled_from([0, 1, 20, 60])),
    st.tuples(st.just("status"), st.sampled_from([400, 401, 403, 404, 412, 500, 502, 503])),
    st.tuples(st.just("body"), st.integers(0, len(BODY) - 1)),
)
faults = st.fixed_dictionaries({
    "host": sv, "connect": st.sampled_from([None, None, None, None, ["refuse"], ["hang"], ["delay", 5], ["delay", 40]]),
    "acts": st.lists(act, max_size=4)})
faultlist = st.one_of(st.just([]), st.just([]), st.lists(faults, min_size=1, max_size=2))
edit = st.fixed_dictionaries({"server": sv, "rev": st.integers(0, 7), "how": st.sampled_from(["set", "set", "add", "remove", "rm", "rm", "distrust"]), "tags": tags})
sync = st.fixed_dictionaries({"ops": st.lists(st.tuples(sv, st.sampled_from(["pull", "push"])), min_size=1, max_size=3), "faults": faultlist,
                              "during": st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 60), edit))})
pull = st.tuples(st.just("sync"), st.fixed_dictionaries({"ops": sv.map(lambda s: [[s, "pull"]]), "faults": st.just([]), "during": st.none()}))
push = st.tuples(st.just("sync"), st.fixed_dictionaries({"ops": sv.map(lambda s: [[s, "push"]]), "faults": faultlist, "during": st.none()}))
step = st.one_of(
    st.tuples(st.just("sync"), sync), st.tuples(st.just("sync"), sync), pull, pull, push, push,
    st.tuples(st.just("edit"), edit), st.tuples(st.just("edit"), edit), st.tuples(st.just("edit"), edit),
    st.tuples(st.just("remote-edit"), sv, sv, st.integers(0, 3), st.sampled_from(["set", "add", "rm"]), tags),
    st.tuples(st.just("new"), sv, tags, st.booleans()),
    st.tuples(st.just("state"), sv, st.sampled_from(["active", "dead", "dead", "absent"])),
    st.tuples(st.just("peers"), sv, st.lists(st.booleans(), min_size=3, max_size=3)),
    st.tuples(st.just("token"), sv, sv, st.booleans()),
    st.tuples(st.just("lock"), sv, st.booleans()),
    st.tuples(st.just("expire"), sv),
)
case = st.fixed_dictionaries({
    "n": st.sampled_from([2, 2, 3]), "name": st.integers(0, len(NAMES) - 1),
    "servers": st.lists(st.fixed_dictionaries({
        "state": st.sampled_from(["active", "active", "dead", "absent"]),
        "revs": st.lists(meta.rev_strategy(tags=TAGS, servers=["", "", ""], maxtags=2), max_size=3),
        "stray": st.lists(st.sampled_from(["s0", "s1", "s2", "gone", "gone"]), max_size=2),
        "copied": st.integers(0, 11).map(lambda x: x == 0),
    }), min_size=3, max_size=3),
    "steps": st.lists(step, min_size=1, max_size=12),
})
# one or two active servers edit the revisions of the others
redit = st.tuples(st.just("remote-edit"), st.sampled_from([0, 0, 1]), st.sampled_from([1, 2, 2]), st.integers(0, 2), st.sampled_from(["set", "set", "add", "rm"]), tags)
during = st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 50), edit))
editing = st.tuples(st.integers(2, 3), st.booleans(), st.lists(st.lists(meta.rev_strategy(tags=TAGS, servers=[""], maxtags=2, complete=st.just(True)), min_size=1, max_size=3), min_size=2, max_size=2),
                    st.lists(st.one_of(
                        redit, redit, redit,
                        st.tuples(st.just("sync"), st.fixed_dictionaries({"ops": st.sampled_from([[[0, "push"]], [[0, "push"]], [[0, "push"], [1, "push"]], [[0, "push"], [1, "pull"]]]), "faults": faultlist, "during": during})),
                        st.tuples(st.just("sync"), st.fixed_dictionaries({"ops": st.sampled_from([[[0, "push"]], [[0, "push"], [1, "push"]]]), "faults": st.just([]), "during": during})),
                        st.tuples(st.just("edit"), edit), pull, st.tuples(st.just("lock"), sv, st.booleans()),
                    ), min_size=1, max_size=9)).map(lambda t: {
                        "n": t[0], "name": 0, "editing": True,
                        "servers": [{"state": "active" if i == 0 or i == 1 and t[1] and t[0] == 3 else "dead", "revs": t[2][i - 1] if i else [], "stray": [], "copied": False} for i in range(3)],
                        "steps": [["sync", {"ops": [[0, "pull"], [1, "pull"]], "faults": [], "during": None}]] + list(t[3])})


class Srv:
    pass


def token(i, j):
    return f"tok-{i}-{j}"


class World:
    def __init__(self, case, d, ds):
        self.ds, self.d = ds, d
        self.net = Net(ds.loop)
        self.net.fault = self.on_connect
        self.net.request = self.on_request
        self.n = case["n"]
        self.name = NAMES[case["name"]]
        self.labels = set()
        self.faults = {}
        self.requests = []
        self.count = 0
        self.servers = []
        self.locks = {}
        for i in range(self.n):
            c = case["servers"][i]
            s = Srv()
            s.i, s.base = i, os.path.join(d, f"base{i}")
            s.path = os.path.join(s.base, self.name)
            os.makedirs(s.base)
            s.state = "active" if i == 0 else c["state"]
            s.peers = [j for j in range(self.n) if j != i]
            s.tokens = {j for j in range(self.n) if j != i}
            if s.state != "absent":
                self.populate(s, c["revs"], c["stray"])
                if c["copied"] and i and self.n == 2 and os.path.isdir(self.servers[0].path):
                    for u, r in list(own(self.servers[0]).items())[:1]:
                        meta.write_rev(s.path, dict(r, tags=["copied"]))
                        self.labels.add("copied revision")
            self.servers.append(s)
        for s in self.servers:
            self.configure(s)
        ds.loop.spin(60)

    def populate(self, s, revs=(), stray=()):
        os.makedirs(os.path.join(s.path, "quarantine"))
        meta.write_config(s.path)
        for r in revs:
            self.add(s, r["tags"], r["complete"], r["trust"], r["age"])
        for x in stray:
            if x != f"s{s.i}":
                self.count += 1
                meta.write_rev(s.path, meta.record(self.count, meta.utc(BASE, 5000 + self.count), ["daily"], x, "trusted", True))

    def add(self, s, tags, complete, trust="trusted", age=100):
        self.count += 1
        meta.write_rev(s.path, meta.record(self.count, meta.utc(BASE, age * 50 + self.count), tags, "", trust, complete))

    def conf(self, s):
        return {
            "global": {"base-dir": s.base},
            "api": {"addrs": f"10.0.0.{s.i}", "port": 6023, "tokens": {token(j, s.i): f"s{j}" for j in sorted(s.tokens)}},
            "peers": {f"s{j}": {"url": f"http://10.0.0.{j}:6023", "token": token(s.i, j)} for j in s.peers},
            "schedules": {"s": {"daily": {"interval": "1d", "keep": 3}, "weekly": {"interval": "7d", "keep": 2}}},
            "jobs": {self.name: {"schedule": "s", "source": {"type": "file", "filename": "/nonexistent"}}} if s.state == "active" else {},
        }

    def configure(self, s):
        name = f"conf{s.i}"
        if not hasattr(s, "dm"):
            s.dm = self.ds.daemon(self.conf(s), name)
            self.ds.call(s.dm.api_server)
        else:
            self.ds.config(self.conf(s), name)
            self.ds.call(s.dm.reload)
        # no backups of its own
        self.ds.call(lambda: [j.stop() for j in s.dm.jobs.values()])
        self.ds.loop.spin(60)

    # ---- network
    def on_connect(self, host, port):
        f = self.faults.get(int(host.split(".")[-1]))
        return f and f["connect"]

    def on_request(self, host, data):
        j = int(host.split(".")[-1])
        m = re.search(rb"Bearer tok-(\d)-(\d)", data)
        i = int(m.group(1))
        f = self.faults.get(j)
        act = None
        if f:
            n = len([1 for r in self.requests if r["to"] == j])
            if n < len(f["acts"]):
                act = f["acts"][n]
        line = data.split(b"\r\n")[0].decode()
        r = {"from": i, "to": j, "line": line, "method": line.split()[0], "path": line.split()[1], "act": act}
        self.requests.append(r)
        if act is None:
            return None
        self.labels.add("fault: " + act[0])
        if act[0] == "status":
            return "answer", b"HTTP/1.1 %d Scripted\r\nContent-Length: 0\r\n\r\n" % act[1]
        if act[0] == "body":
            b = BODY[act[1]]
            return "answer", b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n" % len(b) + b
        return tuple(act)

    # ---- edits as made by the command line
    def repository(self, s):
        from pathlib import Path

        from backy.repository import Repository
        from backy.schedule import Schedule
        r = Repository(Path(s.path), Schedule(), log)
        r.connect()
        return r

    def edit(self, e, at=None, rev=None):
        s = at or self.servers[e["server"] % self.n]
        if s.state == "absent":
            return None
        repo = self.repository(s)
        h = repo.history
        if rev is not None:
            h = [r for r in h if r.uuid == rev]
        if not h:
            return None
        r = h[e["rev"] % len(h)]
        try:
            if e["how"] == "rm":
                repo.rm([r])
            elif e["how"] == "distrust":
                if r.server:
                    return None
                repo.distrust([r])
            else:
                repo.tags(e["how"], r.uuid, set(e["tags"]), force=True)
        except BlockingIOError:
            return "locked"
        self.labels.add("own revision edited" if not r.server else "mirrored revision edited")
        return s.i


def disk(s):
    return meta.on_disk(s.path) if os.path.isdir(s.path) else {}


def own(s):
    return {u: r for u, r in disk(s).items() if not r["server"]}


def complete(r):
    return "duration" in r["stats"]


def pending(r):
    return r["server"] and complete(r) and r["tags"] != r["orig_tags"]


def run_case(case, env):
    d = env.dir()
    with Daemons(d) as ds:
        w = World(case, d, ds)
        for s in case["steps"]:
            dostep(w, s)
        for f in w.locks.values():
            f.close()
        w.locks = {}
        # everybody reachable again
        if len(case["steps"]) > 2:
            for s in w.servers:
                if s.state == "active":
                    do_sync(w, {"ops": [[s.i, "push"]], "faults": [], "during": None})
                    do_sync(w, {"ops": [[s.i, "pull"]], "faults": [], "during": None})
        errors = [e for e in ds.loop.errors if "was destroyed" not in e["message"]]
        check(not errors, lambda: f"unexpected errors in the event loop: {errors}")
    if case.get("editing"):
        return Info(bool(w.labels & {"pushed", "pushed removal", "not overwritten"}), w.labels)
    return Info(bool(w.labels & {"pulled new", "pulled changes", "pushed", "pushed removal", "not overwritten", "kept"}), w.labels)


def dostep(w, s):
    if s[0] == "sync":
        do_sync(w, s[1])
    elif s[0] == "edit":
        w.edit(s[1])
    elif s[0] == "remote-edit":
        a = w.servers[s[1] % w.n]
        m = sorted(u for u, r in disk(a).items() if r["server"] == f"s{s[2]}")
        if m:
            w.edit({"how": s[4], "tags": s[5], "rev": 0}, at=a, rev=m[s[3] % len(m)])
    elif s[0] == "new":
        a = w.servers[s[1] % w.n]
        if a.state != "absent":
            w.add(a, s[2], s[3], age=0)
    elif s[0] == "state":
        a = w.servers[s[1] % w.n]
        if a.i in w.locks:
            return
        a.state = s[2]
        if s[2] == "absent":
            shutil.rmtree(a.path, ignore_errors=True)
        elif not os.path.isdir(a.path):
            w.populate(a)
        w.configure(a)
        w.labels.add("became " + s[2])
    elif s[0] == "peers":
        a = w.servers[s[1] % w.n]
        a.peers = [j for j in range(w.n) if j != a.i and s[2][j]]
        w.configure(a)
    elif s[0] == "token":
        a, b = w.servers[s[1] % w.n], w.servers[s[2] % w.n]
        if a is not b:
            (b.tokens.add if s[3] else b.tokens.discard)(a.i)
            w.configure(b)
    elif s[0] == "lock":
        a = w.servers[s[1] % w.n]
        if not s[2]:
            if a.i in w.locks:
                w.locks.pop(a.i).close()
        elif a.i not in w.locks and os.path.isdir(a.path):
            f = open(os.path.join(a.path, ".backup"), "a")
            fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
            w.locks[a.i] = f
    elif s[0] == "expire":
        a = w.servers[s[1] % w.n]
        if a.state == "active" and a.i not in w.locks:
            w.ds.wait(a.dm.jobs[w.name].run_expiry())


class Watch:
    """the own revisions of a server over time"""

    def __init__(self, w):
        self.w = w
        self.sig = {}
        self.states = {s.i: [] for s in w.servers}
        self.look()

    def look(self):
        for s in self.w.servers:
            sig = []
            if os.path.isdir(s.path):
                for e in os.scandir(s.path):
                    if e.name.endswith(".rev"):
                        x = e.stat()
                        sig.append((e.name, x.st_ino, x.st_mtime_ns, x.st_size))
            sig.sort()
            if self.sig.get(s.i) != sig:
                self.sig[s.i] = sig
                o = own(s)
                if not self.states[s.i] or self.states[s.i][-1] != o:
                    self.states[s.i].append(o)


def do_sync(w, o):
    ds = w.ds
    ops = []
    for i, kind in o["ops"]:
        i %= w.n
        if i not in [x for x, _ in ops] and w.servers[i].state == "active":
            ops.append((i, kind))
    if not ops:
        return
    w.faults = {f["host"] % w.n: f for f in o["faults"]}
    w.requests = []
    before = {s.i: disk(s) for s in w.servers}
    watch = Watch(w)
    for s in w.servers:
        if os.path.isdir(s.path):
            os.utime(s.path, ns=(OLD, OLD))
    results = {}

    async def one(i, kind):
        job = w.servers[i].dm.jobs[w.name]
        job.repository.scan()
        try:
            results[i] = await (job.pull_metadata() if kind == "pull" else job.push_metadata())
        except BlockingIOError as e:
            results[i] = e
    during = None
    edited = None
    tasks = []

    async def main():
        nonlocal during, edited
        for i, kind in ops:
            tasks.append(asyncio.ensure_future(one(i, kind)))
        n = 0
        while not all(t.done() for t in tasks):
            if o["during"] and n == o["during"][0] + 1:
                watch.look()
                e = o["during"][1]
                b = {s.i: own(s) for s in w.servers}
                during = w.edit(e)
                if isinstance(during, int):
                    edited = during, b[during], own(w.servers[during])
                    w.labels.add("edited during " + "/".join(sorted({k for _, k in ops})))
                elif during == "locked":
                    w.labels.add("edit during synchronisation refused")
            n += 1
            await asyncio.sleep(0)
            watch.look()
            if n > 400:
                await asyncio.wait(tasks, timeout=1)
                watch.look()
    ds.wait(main())
    ds.loop.spin(20)
    watch.look()
    for t in tasks:
        t.result()
    after = {s.i: disk(s) for s in w.servers}
    faults, w.faults = w.faults, {}
    what = ", ".join(f"s{i} {k}s" for i, k in ops) + (f" ({[f for f in o['faults']]})" if o["faults"] else "")
    if len(ops) > 1:
        w.labels.add("concurrent")
    for i, kind in ops:
        s = w.servers[i]
        if i in w.locks:
            check(isinstance(results[i], BlockingIOError), f"{what} although the repository of s{i} is in use")
            w.labels.add("refused, locked")
        else:
            check(not isinstance(results[i], BlockingIOError), f"{what}: {results[i]!r}")
    pushes = [(i, u, r) for i, kind in ops if kind == "push" and i not in w.locks for u, r in before[i].items()
              if pending(r) and int(r["server"][1:] if re.fullmatch(r"s\d", r["server"]) else 9) in w.servers[i].peers]
    done = judge_owners(w, what, ops, before, after, pushes, edited, results)
    for i, kind in ops:
        if i in w.locks:
            same_view(what, i, before, after, edited)
        elif kind == "pull":
            judge_pull(w, what, i, before, after, watch, results, faults, edited)
        else:
            judge_push(w, what, i, before, after, pushes, done, results, edited)
    idle = {s.i for s in w.servers} - {i for i, _ in ops}
    for i in idle:
        same_view(what, i, before, after, edited)


OLD = 1500000000 * 10**9


def mirrored(x):
    return {u: r for u, r in x.items() if r["server"]}


def same_view(what, i, before, after, edited):
    if edited and edited[0] == i:
        return
    a, b = mirrored(before[i]), mirrored(after[i])
    check(a == b, lambda: f"{what}: the revisions mirrored at s{i} changed from {a} to {b}")


def requests(w, i, j, method=None):
    return [r for r in w.requests if r["from"] == i and r["to"] == j and (method is None or r["method"] == method)]


def delivered(r):
    return r["act"] is None or r["act"][0] in ("lose", "silent")


def judge_owners(w, what, ops, before, after, pushes, edited, results):
    """own revisions change by successful pushes (and edits) only; returns {(pusher, uuid): applied?}"""
    done = {}
    for s in w.servers:
        j = s.i
        b = {u: r for u, r in before[j].items() if not r["server"]}
        a = {u: r for u, r in after[j].items() if not r["server"]}
        uuids = set(b) | set(a) | {u for i, u, r in pushes if r["server"] == f"s{j}"}
        for u in sorted(uuids):
            mine = []
            for i, u2, r in pushes:
                if u2 != u or r["server"] != f"s{j}":
                    continue
                sent = [x for x in requests(w, i, j, "PUT") if u in x["path"]]
                n = len([x for x in sent if delivered(x)])
                allowed = i in s.tokens and s.state == "dead" and j not in w.locks
                mine.append((i, r, n if allowed else 0))
            events = [("push", i, r) for i, r, n in mine if n]
            if edited and edited[0] == j and edited[1].get(u) != edited[2].get(u):
                events.append(("edit", edited[1].get(u), edited[2].get(u)))
            outcomes = []
            for order in itertools.permutations(events):
                state, ok, possible = b.get(u), {}, True
                for ev in order:
                    if ev[0] == "edit":
                        # the state it was made in is known
                        if state != ev[1]:
                            possible = False
                        state = ev[2]
                    else:
                        _, i, r = ev
                        if state is not None and state["tags"] == r["orig_tags"]:
                            ok[i] = True
                            state = dict(state, tags=r["tags"]) if r["tags"] else None
                if possible:
                    outcomes.append((state, ok))
            states = [x for x, _ in outcomes]
            check(a.get(u) in states, lambda: f"{what}: revision {u} of s{j} changed from {b.get(u)} to {a.get(u)}; expected: {states}; pushed: {[(i, r['orig_tags'], r['tags'], n) for i, r, n in mine]}, "
                  f"state {s.state}, edited {edited}, requests {w.requests}")
            oks = [ok for x, ok in outcomes if x == a.get(u)]
            for i, r, n in mine:
                done[i, u] = {bool(ok.get(i)) for ok in oks}
                if True in done[i, u]:
                    w.labels.add("pushed" if r["tags"] else "pushed removal")
                elif n:
                    w.labels.add("not overwritten")
    return done


def judge_push(w, what, i, before, after, pushes, done, results, edited):
    if edited and edited[0] == i:
        return
    mine = {u: r for x, u, r in pushes if x == i}
    b, a = mirrored(before[i]), mirrored(after[i])
    failed = False
    for u in sorted(set(b) | set(a)):
        if u not in mine:
            check(a.get(u) == b.get(u), lambda: f"{what}: the revision {u} mirrored at s{i} changed from {b.get(u)} to {a.get(u)} although there was nothing to push")
            continue
        r = mine[u]
        j = int(r["server"][1:])
        sent = [x for x in requests(w, i, j, "PUT") if u in x["path"]]
        synced = dict(r, orig_tags=r["tags"]) if r["tags"] else None
        options = []
        yes = done[i, u]
        if True in yes and not any(x["act"] and x["act"][0] in ("drop", "mute", "lose", "silent", "status", "body") for x in sent):
            options.append(synced)
            if False in yes:
                options.append(r)
        elif True in yes:
            # the answer may not have arrived
            options += [synced, r]
        else:
            options.append(r)
            failed = True
            if any(x["act"] and x["act"][0] == "body" for x in sent):
                options.append(synced)  # somebody claimed so
                failed = False
        check(a.get(u) in options, lambda: f"{what}: the revision {u} mirrored at s{i} became {a.get(u)} instead of {options} (before: {r}, applied by the owner: {yes}, requests: {w.requests})")
    for j in w.servers[i].peers:
        removed = [u for u, r in mine.items() if r["server"] == f"s{j}" and not r["tags"] and u not in a and True in done[i, u]]
        posts = [x for x in requests(w, i, j, "POST")]
        if removed and all(x["act"] is None for x in posts) and not any(x["act"] for x in w.requests if x["to"] == j) and w.servers[j].state == "dead":
            check(os.path.exists(os.path.join(w.servers[j].path, ".purge_pending")), f"{what}: s{j} was not asked to purge after {removed} was removed")
            w.labels.add("purge requested")
    if not mine:
        check(results[i] == 0, f"{what} reports {results[i]} errors with nothing to push")
    elif failed:
        check(results[i] > 0, f"{what} reports success although not everything was pushed: {mine}")
    elif not any(x["act"] for x in w.requests if x["from"] == i) and all(done[i, u] == {True} for u in mine):
        check(results[i] == 0, f"{what} reports {results[i]} errors; {w.requests}")


def judge_pull(w, what, i, before, after, watch, results, faults, edited):
    s = w.servers[i]
    if edited and edited[0] == i:
        return
    b, a = mirrored(before[i]), mirrored(after[i])
    servers = {r["server"] for r in list(b.values()) + list(a.values())} | {f"s{j}" for j in s.peers}
    ownids = {u for u, r in before[i].items() if not r["server"]}
    errors = False
    for name in sorted(servers):
        vb = {u: r for u, r in b.items() if r["server"] == name}
        va = {u: r for u, r in a.items() if r["server"] == name}
        if not re.fullmatch(r"s\d", name) or int(name[1:]) not in s.peers:
            check(not va, lambda: f"{what}: revisions of {name}, which is not configured any longer, are kept: {va}")
            if vb:
                w.labels.add("dropped")
            continue
        j = int(name[1:])
        reqs = requests(w, i, j)
        mirror = []
        for state in watch.states[j]:
            m = {u: dict(r, server=name, orig_tags=r["tags"]) for u, r in state.items() if complete(r) and u not in ownids}
            if m not in mirror:
                mirror.append(m)
        last = reqs[-1] if reqs else None
        t = w.servers[j]
        granted = i in t.tokens
        get = [x for x in reqs if x["method"] == "GET"]
        if last is None or last["act"] and last["act"][0] in ("drop", "mute", "lose", "silent"):
            options, label = [vb], "kept"
            errors = True
        elif last["act"] and last["act"][0] == "status":
            options, label = [vb, {}], "error status"
        elif last["act"]:
            options, label = [vb], "senseless answer"
            if last["method"] == "GET" and BODY[last["act"][1]] in (b"{}",):
                options.append({})  # no revisions?
        elif not granted:
            options, label = [vb, {}], "unauthorised"
        elif t.state == "absent":
            options, label = [{}], "unknown there"
        else:
            options, label = mirror, "mirrored"
            if not get:
                options = []
            elif last is not get[-1] and (get[-1]["act"]):
                options = mirror + [vb, {}]
        if any(x["act"] for x in reqs) and label == "mirrored":
            options = options + [vb]
        w.labels.add(label)
        check(va in options, lambda: f"{what}: the view of {name} at s{i} became {va} instead of one of {options} ({label}; before: {vb}; requests {w.requests})")
        if label == "mirrored":
            if set(va) - set(vb):
                w.labels.add("pulled new")
            if any(va.get(u) != vb[u] for u in vb):
                w.labels.add("pulled changes")
            if not any(x["act"] for x in reqs):
                check(os.stat(t.path).st_mtime_ns > OLD or any(x["to"] == j and x["act"] for x in w.requests), f"{what}: the backup at {name} is used but not marked as such")
    if errors:
        check(results[i] > 0, f"{what} reports success although a peer could not be reached: {w.requests}")
    elif not w.requests or not any(x["act"] for x in w.requests) and not faults and all(i in w.servers[j].tokens for j in s.peers):
        check(results[i] == 0, f"{what} reports {results[i]} errors: {w.requests}")


CAMPAIGNS = [Campaign("servers", case, run_case, "something was pulled or pushed, kept because the peer was unreachable, or not overwritten because the owner had changed it", batch=15),
             Campaign("editing", editing, run_case, "something was pushed, or not overwritten because the owner had changed it", batch=15)]

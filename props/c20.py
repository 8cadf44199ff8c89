"""C20 Reloading converges to exactly the configured jobs."""
import asyncio
import copy
import datetime
import os
import shutil
import socket

import yaml
from hypothesis import strategies as st

from lib.core import Campaign, HarnessError, Info, check
from lib.vloop import BASE, Daemons
from lib.world import fast_environment, fast_yaml, log, quiet_main, read_rev_files
from props.c16 import seconds

PROP = "C20"
TECHNIQUE = "stateful, differential property-based testing: a daemon after generated reloads against a freshly started one"
LEVEL = "exploration"
NOTE = "sequences of up to 6 configurations of up to 4 jobs, 3 schedules; virtual time between the reloads; the API in real time on loopback"
ASSUMPTIONS = ["the base directory does not change while the daemon runs",
               "a configuration is invalid if a daemon freshly started with it fails to start"]


def worker_init(env):
    fast_environment()
    quiet_main()
    fast_yaml()


SPECS = [{"daily": {"interval": "1d", "keep": 3}}, {"daily": {"interval": "1d", "keep": 5}}, {"hourly": {"interval": "1h", "keep": 3}},
         {"daily": {"interval": "1d", "keep": 3}, "hourly": {"interval": "2h", "keep": 2}}, {"weekly": {"interval": "7d", "keep": 2}}]
SOURCES = [{"type": "file", "filename": "/a"}, {"type": "file", "filename": "/b"}, {"type": "rbd", "pool": "p", "image": "i"},
           {"type": "flyingcircus", "pool": "p", "image": "i", "vm": "x", "consul_acl_token": "t"}]
NAMES = ["vm0", "vm1", "vm2", "a.b-c"]
TOKENS = [{}, {"t1": "c1"}, {"t1": "c1", "t2": "c2"}, {"t2": "c1"}]
API = [{}, {"addrs": "127.0.0.1"}, {"port": 1234}, {"addrs": "127.0.0.1, ::1", "port": 99}, {"addrs": ""}]
CLI = [{"token": "x"}, {"token": "y", "url": "http://elsewhere:1"}, {}]
PEERS = [{}, {"p1": {"url": "http://p1:1", "token": "a"}}, {"p1": {"url": "http://p1:2", "token": "b"}, "p2": {"url": "http://p2:1", "token": "a"}}]
INVALID = ["noschedule", "badinterval", "nobase", "nojobs", "nosource", "list", "empty", "syntax", "missing", "nokeytoken", "badlimit", "badport", "joblist", "noschedules", "blocked"]

edit = st.one_of(
    st.tuples(st.just("job"), st.integers(0, 3), st.integers(0, 2), st.integers(0, 3)),  # add or change
    st.tuples(st.just("job"), st.integers(0, 3), st.integers(0, 2), st.integers(0, 3)),
    st.tuples(st.just("nojob"), st.integers(0, 3)),
    st.tuples(st.just("schedule"), st.integers(0, 2), st.integers(0, 4)),
    st.tuples(st.just("schedule"), st.integers(0, 2), st.integers(0, 4)),
    st.tuples(st.just("move"), st.integers(0, 2), st.integers(0, 2)),
    st.tuples(st.just("global"), st.sampled_from(["limit", "tokens", "api", "cli", "peers", "callback"]), st.integers(0, 4)),
)
step = st.fixed_dictionaries({"edits": st.lists(edit, max_size=4), "wait": st.one_of(st.just(0), st.integers(1, 200), st.integers(1, 100000)),
                              "trigger": st.lists(st.integers(0, 3), max_size=3)})
case = st.fixed_dictionaries({
    "first": st.lists(edit, max_size=6), "steps": st.lists(step, min_size=1, max_size=5), "long": st.sets(st.integers(0, 3)).map(sorted),
    "invalid": st.one_of(st.none(), st.none(), st.sampled_from(INVALID)), "extra": st.booleans(),
})
# many jobs and another limit
lim = st.tuples(st.just("global"), st.just("limit"), st.sampled_from([0, 1, 1, 1, 2, 2, 3, 4]))
limit_case = st.fixed_dictionaries({
    "first": st.tuples(lim, st.permutations([["job", i, i % 3, i % 4] for i in range(4)])).map(lambda x: [x[0]] + list(x[1])),
    "steps": st.lists(st.fixed_dictionaries({"edits": lim.map(lambda x: [x]), "wait": st.one_of(st.just(0), st.integers(1, 200), st.integers(1, 100000)),
                                             "trigger": st.lists(st.integers(0, 3), max_size=3)}), min_size=1, max_size=3),
    "long": st.sampled_from([[], [], [0, 1, 2, 3], [0], [1, 2, 3]]), "invalid": st.none(), "extra": st.just(False),
})


class Conf:
    def __init__(self):
        self.jobs = {"vm0": (0, 0), "vm1": (1, 1)}
        self.schedules = {0: 0, 1: 2, 2: 3}
        self.g = {"limit": 1, "tokens": 0, "api": 0, "cli": 0, "peers": 0, "callback": 0}
        self.alias = {}

    def edit(self, e):
        if e[0] == "job":
            self.jobs[NAMES[e[1]]] = (e[2], e[3])
        elif e[0] == "nojob":
            self.jobs.pop(NAMES[e[1]], None)
        elif e[0] == "schedule":
            self.schedules[e[1]] = e[2]
        elif e[0] == "move":
            # another name for the same schedule and back
            self.alias[e[1]] = f"other{e[2]}" if e[2] else None
        else:
            self.g[e[1]] = e[2]

    def sname(self, i):
        return self.alias.get(i) or f"s{i}"

    def yaml(self, basedir):
        g = self.g
        api = dict(copy.deepcopy(API[g["api"] % len(API)]))
        if TOKENS[g["tokens"] % len(TOKENS)] or g["tokens"] == 4:
            api["tokens"] = dict(TOKENS[g["tokens"] % len(TOKENS)])
        if CLI[g["cli"] % len(CLI)]:
            api["cli-default"] = dict(CLI[g["cli"] % len(CLI)])
        c = {"global": {"base-dir": basedir}, "api": api,
             "schedules": {self.sname(i): copy.deepcopy(SPECS[s]) for i, s in self.schedules.items()},
             "jobs": {n: {"schedule": self.sname(s), "source": dict(SOURCES[q])} for n, (s, q) in self.jobs.items()}}
        if g["limit"]:
            c["global"]["worker-limit"] = g["limit"]
        if g["callback"] % 3:
            c["global"]["backup-completed-callback"] = f"/cb{g['callback'] % 3}"
        if PEERS[g["peers"] % len(PEERS)]:
            c["peers"] = copy.deepcopy(PEERS[g["peers"] % len(PEERS)])
        return c


def spoil(conf, how, path):
    """an invalid configuration file"""
    c = copy.deepcopy(conf)
    jobs = c["jobs"]
    jobs.setdefault("vm0", {"schedule": next(iter(c["schedules"])), "source": dict(SOURCES[0])})
    last = sorted(jobs)[-1]
    if how == "noschedule":
        jobs[last]["schedule"] = "unknown"
    elif how == "badinterval":
        next(iter(next(iter(reversed(c["schedules"].values()))).values()))["interval"] = "soon"
    elif how == "nobase":
        del c["global"]
    elif how == "nojobs":
        del c["jobs"]
    elif how == "nosource":
        del jobs[last]["source"]
    elif how == "list":
        c = [1, 2]
    elif how == "empty":
        c = None
    elif how == "badlimit":
        c["global"]["worker-limit"] = "many"
    elif how == "badport":
        c["api"]["port"] = "http"
    elif how == "joblist":
        c["jobs"] = ["vm0"]
    elif how == "noschedules":
        del c["schedules"]
    elif how == "nokeytoken":
        c["api"]["addrs"] = 7
    elif how == "blocked":
        jobs["blocked"] = {"schedule": next(iter(c["schedules"])), "source": dict(SOURCES[0])}
        jobs["zz"] = {"schedule": next(iter(c["schedules"])), "source": dict(SOURCES[0])}
    if how == "missing":
        os.unlink(path)
        return
    with open(path, "w") as f:
        if how == "syntax":
            f.write(yaml.safe_dump(c) + "\nx: [\n")
        elif how == "empty":
            pass
        else:
            yaml.safe_dump(c, f)


ATTRS = ["worker_limit", "api_addrs", "api_port", "api_tokens", "api_cli_default", "peers", "backup_completed_callback"]


class Down:
    """all peers are down; who was asked with which token?"""

    def __init__(self):
        self.asked = []

    def install(self):
        import aiohttp
        self.saved = aiohttp.ClientSession._request
        me = self

        async def _request(session, method, url, *a, **kw):
            me.asked.append((str(session._base_url or url), session.headers.get("Authorization")))
            raise aiohttp.ClientConnectionError("down")
        aiohttp.ClientSession._request = _request

    def remove(self):
        import aiohttp
        aiohttp.ClientSession._request = self.saved


def run_case(case, env):
    d = env.dir()
    basedir = os.path.join(d, "base")
    os.makedirs(basedir)
    if case["extra"]:
        os.makedirs(os.path.join(basedir, "gone"))
        os.makedirs(os.path.join(d, "outside"))
        os.symlink(os.path.join(d, "outside"), os.path.join(basedir, "link"))
        open(os.path.join(basedir, "afile"), "w").close()
    conf = Conf()
    for e in case["first"]:
        conf.edit(e)
    labels = set()
    down = Down()
    state = {"fresh": False}

    def name_of(args):
        if "-C" in args:
            return os.path.basename(args[args.index("-C") + 1].rstrip("/"))
        return args[1]

    def handler(args):
        name = name_of(args)
        kind = "backup" if "backup" in args else "gc" if "gc" in args else "callback"
        if kind == "backup":
            path = os.path.join(args[args.index("-C") + 1], args[-1] + ".rev")
            if state["fresh"]:
                return 10 ** 7, 1, None, b""

            dur = 50000.0 if name in NAMES and NAMES.index(name) in case["long"] else 20.0

            def effect():
                with open(path) as f:
                    data = yaml.safe_load(f)
                data["stats"]["duration"] = dur
                with open(path + ".new", "w") as f:
                    yaml.safe_dump(data, f)
                os.rename(path + ".new", path)
            return dur, 0, effect, b""
        return 1, 0, None, b""

    down.install()
    try:
        with Daemons(d, handler) as ds:
            current = conf.yaml(basedir)
            dm = ds.daemon(current)
            for n, step_ in enumerate(case["steps"]):
                ds.loop.spin()
                for t in step_["trigger"]:
                    if NAMES[t] in dm.jobs:
                        dm.jobs[NAMES[t]].run_immediately.set()
                ds.loop.spin()
                if step_["wait"]:
                    ds.loop.run(step_["wait"])
                ds.loop.spin()
                before = {x["job"]: x for x in ds.call(dm.status)}
                running = [(name_of([str(x) for x in a]), p, [str(x) for x in a]) for a, p in ds.procs if p.returncode is None and not p.terminated]
                pending = {n for n, j in dm.jobs.items() if j.run_immediately.is_set()}
                old = current
                for e in step_["edits"]:
                    conf.edit(e)
                current = conf.yaml(basedir)
                ds.config(current)
                nprocs = len(ds.procs)
                ds.call(dm.reload)
                ds.loop.spin()
                what = f"step {n}: reload from {old} to {current}"
                compare(ds, dm, d, basedir, old, current, before, running, nprocs, what, state, labels, name_of, pending)
            if case["invalid"]:
                invalid(ds, dm, d, basedir, conf, case["invalid"], state, labels)
            else:
                finish(ds, dm, current, labels, name_of, down)
    finally:
        down.remove()
    return Info(len(labels) >= 2, labels)


def changed(old, new, name):
    a, b = old["jobs"].get(name), new["jobs"].get(name)
    return a != b or old["schedules"][a["schedule"]] != new["schedules"][b["schedule"]]


def compare(ds, dm, d, basedir, old, new, before, running, nprocs, what, state, labels, name_of, pending):
    check(set(dm.jobs) == set(new["jobs"]), f"{what}: jobs are {sorted(dm.jobs)}")
    # a fresh daemon in a copy of the directory
    copydir = os.path.join(d, "copy")
    shutil.rmtree(copydir, ignore_errors=True)
    os.makedirs(copydir)
    # same base directory as far as the names of files go
    shutil.copytree(basedir, os.path.join(copydir, "base"), symlinks=True)
    conf2 = copy.deepcopy(new)
    conf2["global"]["base-dir"] = os.path.join(copydir, "base")
    state["fresh"] = True
    try:
        fresh = ds.daemon(conf2, name="fresh.conf")
        ds.loop.spin()
        after = {x["job"]: x for x in ds.call(dm.status)}
        want = {x["job"]: x for x in ds.call(fresh.status)}
        for a in ATTRS:
            check(getattr(dm, a) == getattr(fresh, a), f"{what}: {a} is {getattr(dm, a)!r}, a fresh daemon has {getattr(fresh, a)!r}")
        check(set(dm.schedules) == set(fresh.schedules), f"{what}: schedules are {sorted(dm.schedules)}")
        # dead backups
        dead = {e.name for e in os.scandir(basedir) if e.is_dir(follow_symlinks=False) and e.name not in new["jobs"]}
        check(set(dm.dead_repositories) == dead, f"{what}: dead backups are {sorted(dm.dead_repositories)} instead of {sorted(dead)}")
        procs = {}
        for name, p, args in running:
            procs.setdefault(name, []).append(p)
        for name in set(old["jobs"]) | set(new["jobs"]):
            ps = procs.get(name, [])
            if name not in new["jobs"]:
                labels.add("removed")
                check(all(p.terminated for p in ps), f"{what}: {name} was removed but its process is still running")
                continue
            job = dm.jobs[name]
            spec = new["schedules"][new["jobs"][name]["schedule"]]
            with open(os.path.join(basedir, name, "config")) as f:
                c = yaml.safe_load(f)
            check(c == {"path": os.path.join(basedir, name), "schedule": spec, "source": new["jobs"][name]["source"]}, f"{what}: {name} is stored with the configuration {c}")
            check(job.to_dict()["schedule"] == spec, f"{what}: {name} runs with the schedule {job.to_dict()['schedule']}")
            check(job.spread == fresh.jobs[name].spread, f"{what}: {name} has another spread than after a restart")
            if name in old["jobs"] and not changed(old, new, name):
                labels.add("unchanged")
                check(not any(p.terminated for p in ps), f"{what}: {name} did not change but its process was terminated")
                if ps:
                    labels.add("unchanged while running")
                a, b = after[name], before[name]
                # (queued jobs may start now that others were stopped)
                check(b["status"].startswith("waiting for worker") or (a["status"], a["next_time"], a["next_tags"]) == (b["status"], b["next_time"], b["next_tags"]), f"{what}: {name} did not change, but {b} became {a}")
            else:
                labels.add("changed" if name in old["jobs"] else "added")
                if ps:
                    labels.add("changed while running")
                only = name in old["jobs"] and old["jobs"][name] == new["jobs"][name]
                if only:
                    labels.add("only its schedule changed")
                # a backup may finish with the previous schedule
                check(only or all(p.terminated for p in ps), f"{what}: {name} was reconfigured but its old process is still running")
                a, b = after[name], want[name]
                if name in pending:  # triggered while it was running: runs again at once
                    labels.add("pending trigger")
                elif not any(r for r in (a, b) if not r["next_time"]):
                    check((a["status"], a["next_time"], a["next_tags"] and set(a["next_tags"].split(","))) == (b["status"], b["next_time"], b["next_tags"] and set(b["next_tags"].split(","))),
                          f"{what}: {name} plans {a}, after a restart it would plan {b}")
                    labels.add("compared plans")
                else:
                    # due at once: queued or running in both
                    check((a["next_time"] is None) == (b["next_time"] is None), f"{what}: {name} is in state {a}, after a restart it would be {b}")
    finally:
        state["fresh"] = False
        if "fresh" in locals():
            for j in fresh.jobs.values():
                ds.call(j.stop)
        ds.loop.spin()
        ds.procs[:] = [(a, p) for a, p in ds.procs if copydir not in " ".join(map(str, a))]
        shutil.rmtree(copydir, ignore_errors=True)


def invalid(ds, dm, d, basedir, conf, how, state, labels):
    """the daemon stops working altogether"""
    conf.jobs.setdefault("vm0", (0, 0))
    conf.jobs["vm2"] = (0, 3)
    path = os.path.join(d, "backy.conf")
    if how == "blocked":
        # a job that cannot be set up
        open(os.path.join(basedir, "blocked"), "w").close()
    spoil(conf.yaml(basedir), how, path)
    # is it really?
    from backy.daemon import BackyDaemon
    copydir = os.path.join(d, "copy")
    shutil.copytree(basedir, os.path.join(copydir, "base"), symlinks=True)
    if os.path.exists(path):
        with open(path) as f:
            text = f.read().replace(basedir, os.path.join(copydir, "base"))
        with open(os.path.join(d, "fresh.conf"), "w") as f:
            f.write(text)
    state["fresh"] = True
    try:
        fresh = ds.daemon(None, name="fresh.conf" if os.path.exists(path) else "missing.conf")
    except Exception:
        fresh = None
    if fresh is not None:
        for j in fresh.jobs.values():
            ds.call(j.stop)
        ds.loop.spin()
        raise HarnessError(f"a daemon starts with {how}")
    # jobs of the fresh daemon that were started before it failed
    for t in asyncio.all_tasks(ds.loop):
        pass
    mine = set(dm.jobs)
    state["fresh"] = False
    labels.add("invalid: " + how)
    raised = []
    ended = []

    async def shutdown():
        await dm.shutdown_loop()
        ended.append(True)
    task = ds.loop.create_task(shutdown())
    ds.loop.spin()

    def reload():
        try:
            dm.reload()
        except BaseException as e:
            raised.append(e)
    ds.loop.call_soon(reload)
    try:
        ds.loop.run(2)
    except (asyncio.CancelledError, RuntimeError):
        pass
    n = len(ds.procs)
    for i in range(3):
        try:
            ds.loop.run(1)
        except (asyncio.CancelledError, RuntimeError):
            pass
    check(ended, f"invalid configuration ({how}): the daemon carries on")
    alive = [t.get_name() for t in asyncio.all_tasks(ds.loop) if not t.done() and t.get_name().startswith("backup-loop")]
    # whatever is left must not do anything
    n = len(ds.procs)
    running = [a for a, p in ds.procs if p.returncode is None and not p.terminated and basedir + "/" in " ".join(map(str, a)) + "/"]
    check(not running, f"invalid configuration ({how}): {running} are still running")
    try:
        ds.loop.run(20 * 86400)
    except (asyncio.CancelledError, RuntimeError):
        pass
    late = [a for a, p in ds.procs[n:] if basedir + "/" in " ".join(map(str, a)) + "/"]
    check(not late, f"invalid configuration ({how}): the daemon was terminated but {late} were started ({sorted(mine)}, {alive})")


def finish(ds, dm, current, labels, name_of, down):
    """the current sources, limits, callbacks, peers are used"""
    ds.loop.run(60000)
    # nobody is running: everything at once
    n = None
    if any(p.returncode is None and not p.terminated for a, p in ds.procs):
        ds.config(dict(current, jobs={}))
        ds.call(dm.reload)
        ds.loop.spin(200)
        n = len(ds.procs)
        ds.config(current)
        ds.call(dm.reload)
        ds.loop.spin(200)
        labels.add("all restarted")
    limit = dm.worker_limit  # compared with a fresh daemon before
    fast = slow = 0
    for name in current["jobs"]:
        done = sorted((r for r in read_rev_files(os.path.join(dm.base_dir, name)).values() if "duration" in r["stats"]), key=lambda r: r["timestamp"])
        if done and done[-1]["stats"]["duration"] < 600:
            fast += 1
        else:
            slow += 1
    if n is None:
        n = len(ds.procs)
    down.asked.clear()
    for j in dm.jobs.values():
        j.run_immediately.set()
    ds.loop.spin(200)
    new = ds.procs[n:]
    if any("backup" not in map(str, a) for a, p in new):
        return
    want = min(limit, fast) + min(limit, slow)
    check(len(new) == want, f"with {fast} fast and {slow} slow jobs and a limit of {limit}, {[list(map(str, a)) for a, p in new]} run at once")
    if fast > limit or slow > limit:
        labels.add("limit")
    ds.loop.run(60000)
    for a, p in ds.procs[n:]:
        a = list(map(str, a))
        if "-C" in a:
            name = name_of(a)
            type_ = current["jobs"][name]["source"]["type"]
            check(a[0] == "backy-" + type_, f"{name} is configured with {current['jobs'][name]['source']} but {a} is started")
        else:
            check(a[0] == current["global"].get("backup-completed-callback"), f"the callback {a} is called instead of {current['global'].get('backup-completed-callback')}")
    peers = {(p["url"], "Bearer " + p["token"]) for p in current.get("peers", {}).values()}
    asked = {(u.rstrip("/"), t) for u, t in down.asked}
    check(asked == (peers if current["jobs"] else set()), f"peers {asked} were asked instead of {peers}")
    labels.add("worked")


ADDRS = ["127.0.0.1", "127.0.0.2", "127.0.0.3", "::1"]
TOK = ["t0", "t1", "t2"]
apiconf = st.fixed_dictionaries({"addrs": st.sets(st.integers(0, 3)).map(sorted), "port": st.integers(0, 1), "tokens": st.sets(st.integers(0, 2)).map(sorted),
                                 "pause": st.one_of(st.just(0), st.integers(0, 8), st.just(100))})
api_case = st.fixed_dictionaries({"confs": st.lists(apiconf, min_size=1, max_size=5), "slow": st.sampled_from([0, 0.002, 0.01]),
                                  # addresses used by somebody else during some of the steps
                                  "busy": st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 3), st.integers(0, 1), st.integers(0, 4), st.integers(1, 3)))})


NEXT = [0]


def free_ports(n, worker):
    """not used by other workers"""
    out = []
    while len(out) < n:
        NEXT[0] += 1
        port = 18000 + worker * 600 + NEXT[0] % 600
        keep = []
        try:
            for a in ADDRS:
                t = socket.socket(socket.AF_INET6 if ":" in a else socket.AF_INET)
                keep.append(t)
                t.bind((a, port))
            out.append(port)
        except OSError:
            pass
        finally:
            for t in keep:
                t.close()
    return out


async def ask(addr, port, token, path="/v1/jobs"):
    """status, None: refused"""
    try:
        r, w = await asyncio.wait_for(asyncio.open_connection(addr, port), 10)
    except ConnectionError:
        return None
    try:
        auth = f"Authorization: Bearer {token}\r\n" if token else ""
        w.write(f"GET {path} HTTP/1.1\r\nHost: x\r\n{auth}Connection: close\r\n\r\n".encode())
        data = await asyncio.wait_for(r.read(), 3)
    except ConnectionError:
        return None
    except asyncio.TimeoutError:
        return "no answer"  # asyncio forgets connections that arrive while a server closes
    finally:
        w.close()
    return int(data.split()[1]) if data else None


def run_api(case, env):
    from pathlib import Path

    from backy.daemon import BackyDaemon
    d = env.dir()
    basedir = os.path.join(d, "base")
    os.makedirs(basedir)
    ports = free_ports(2, env.worker)
    labels = set()
    path = os.path.join(d, "backy.conf")

    def write(c):
        conf = {"global": {"base-dir": basedir}, "api": {"addrs": ", ".join(ADDRS[i] for i in c["addrs"]), "port": ports[c["port"]],
                "tokens": {TOK[i]: f"client{i}" for i in c["tokens"]}},
                "schedules": {"s": SPECS[4]}, "jobs": {"vm0": {"schedule": "s", "source": dict(SOURCES[0])}}}
        with open(path, "w") as f:
            yaml.safe_dump(conf, f)

    cwd = os.getcwd()
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    real = loop.create_server

    async def create_server(*a, **kw):
        if case["slow"]:
            await asyncio.sleep(case["slow"])
        return await real(*a, **kw)
    loop.create_server = create_server
    busy = case["busy"]
    blocker = []

    def block(n):
        if not busy:
            return
        i, p, first, length = busy
        if n == first:
            s = socket.socket(socket.AF_INET6 if ":" in ADDRS[i] else socket.AF_INET)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind((ADDRS[i], ports[p]))
                s.listen(1)
            except OSError:
                s.close()
                return
            blocker.append(s)
            labels.add("address in use")
        elif n == first + length and blocker:
            blocker.pop().close()

    async def look():
        out = {}
        for a in range(len(ADDRS)):
            for p in range(2):
                if blocker and busy[:2] == [a, p]:
                    continue
                out[a, p] = [await ask(ADDRS[a], ports[p], t) for t in [None] + TOK]
                if out[a, p] == [None] * 4:
                    out[a, p] = None
        return out

    async def main():
        block(0)
        write(case["confs"][0])
        dm = BackyDaemon(Path(path), log)
        dm.loop = loop
        dm._read_config()
        dm._apply_config()
        dm.api_server()
        for n, c in enumerate(case["confs"]):
            if n:
                block(n)
                write(c)
                dm.reload()
            if c["pause"] == 100:
                await asyncio.sleep(0.05)
            else:
                for i in range(c["pause"]):
                    await asyncio.sleep(0)
        if busy and blocker and len(case["confs"]) == busy[2] + busy[3]:
            blocker.pop().close()
            dm.reload()
        last = case["confs"][-1]
        want = {}
        for a in range(len(ADDRS)):
            for p in range(2):
                if blocker and busy[:2] == [a, p]:
                    continue
                want[a, p] = [401] + [200 if t in last["tokens"] else 401 for t in range(3)] if a in last["addrs"] and p == last["port"] else None
        deadline = loop.time() + 12
        while True:
            got = await look()
            if got == want:
                return
            if loop.time() > deadline:
                diff = {f"{ADDRS[a]} port {p}": (got[a, p], want[a, p]) for a, p in want if got[a, p] != want[a, p]}
                check(False, f"after the last reload these addresses answer (no token, {', '.join(TOK)}) with x instead of y (None: refused): {diff}")
            await asyncio.sleep(0.05)
    try:
        loop.run_until_complete(main())
    finally:
        for s in blocker:
            s.close()
        tasks = asyncio.all_tasks(loop)
        for t in tasks:
            t.cancel()
        loop.run_until_complete(asyncio.gather(*tasks, return_exceptions=True))
        loop.close()
        asyncio.set_event_loop(None)
        os.chdir(cwd)
    cs = case["confs"]
    if len(cs) > 1:
        if any(a["tokens"] != b["tokens"] for a, b in zip(cs, cs[1:])):
            labels.add("tokens change")
        if any((a["addrs"], a["port"]) != (b["addrs"], b["port"]) for a, b in zip(cs, cs[1:])):
            labels.add("addresses change")
        if any(c["pause"] < 9 for c in cs[:-1]):
            labels.add("reloads in close succession")
    return Info(len(labels) >= 2, labels)


CAMPAIGNS = [
    Campaign("reload", case, run_case, "at least two kinds of changes to jobs were seen", weight=3, batch=10),
    Campaign("limits", limit_case, run_case, "at least two kinds of changes to jobs were seen", weight=1, batch=10),
    Campaign("api", api_case, run_api, "at least two of: tokens changed, addresses changed, reloads came in close succession, an address was in use", weight=1, batch=10),
]

"""C09 Backups leave the source's snapshots tidy and foreign ones alone."""
import datetime
import json
import os
import time

import consulate
from hypothesis import strategies as st

from lib import gen, hist
from lib.core import Campaign, Info, check
from lib.world import fast_environment, install_clock, quiet_main, read_rev_files, repo, restore_clock, tree, tree_diff
from props import c08

PROP = "C09"
TECHNIQUE = ("stateful model-based testing: histories of guest writes, foreign and stale snapshots, mappings, removals and (failing) backups against a "
             "snapshot-set model; the Consul key space and the machine's agent are simulated in virtual time")
LEVEL = "exploration"
NOTE = "1-5 backups per case with 0-2 command faults each, images up to ~9 MiB, up to 6 foreign snapshots/mappings and 6 foreign Consul keys"
ASSUMPTIONS = ["rbd and Consul are stand-ins with the documented command line and client interface",
               "if taking the snapshot itself fails no clean-up is due"]


def worker_init(env):
    fast_environment()
    quiet_main()


names = st.sampled_from(["mybacky-1", "backy", "Backy-1", "backy_1", "other", "backup-1", "xbacky-", "a.backy-b", "backy1-2", "BACKY-x", "daily-backy-1", "b"])
own = st.sampled_from(["backy-", "backy-1", "backy-old", "backy-backy-1", "backy-00000000-0000-0000-0000-000000000000", "backy-Ä1", "backy-x.y"])
fault = st.one_of(
    st.tuples(st.just("cmd"), st.sampled_from(c08.CMDS), st.sampled_from([0, 0, 0, 1, 2, -1]), c08.mode),
    st.tuples(st.just("cmd"), st.sampled_from(["map", "showmapped", "--version", "unmap", "snap-rm", "snap-ls"]), st.sampled_from([0, 0, 0, 1]), c08.mode),
    st.tuples(st.just("n"), st.integers(0, 14), c08.mode),
    st.tuples(st.just("nodev")),
    st.tuples(st.just("wrong")),
)
step = st.one_of(
    st.tuples(st.just("guest"), hist.guest),
    st.tuples(st.just("snap"), names),
    st.tuples(st.just("own"), own),
    st.tuples(st.just("protect"), st.integers(0, 9)),
    st.tuples(st.just("map"), st.integers(0, 9)),
    st.tuples(st.just("rm"), st.integers(0, 5)),
    st.tuples(st.just("foreign"), st.integers(0, 9)),
    st.tuples(st.just("backup"), st.just([])),
    st.tuples(st.just("backup"), st.just([])),
    st.tuples(st.just("backup"), st.lists(fault, min_size=1, max_size=2)),
    st.tuples(st.just("backup"), st.lists(fault, min_size=1, max_size=2)),
)
garbage = st.sampled_from(["", "{", "nope", "[]", "1", "null", '"x"', "{}", '{"vm": "me"}', '{"snapshot": "backy-1"}', '{"vm": null, "snapshot": null}',
                           '{"vm": "me", "snapshot": 5}', '{"vm": ["me"], "snapshot": "backy-1"}', "\x00", "@bytes", "NaN", '{"vm": "me", "snapshot": ""}'])
key = st.one_of(
    st.tuples(st.just("req"), st.sampled_from(["snapshot/", "snapshot/a/", "snapshots/", "snapshot", "other/", "/snapshot/"]),
              st.sampled_from(["me", "me", "you", "me2", "Me", ""]), st.sampled_from(["backy-1", "backy-x", "mine", "mybacky-1", "backy", "Backy-1", ""])),
    st.tuples(st.just("raw"), st.sampled_from(["snapshot/", "snapshot/", "other/"]), garbage),
)
agent = st.one_of(
    st.tuples(st.sampled_from(["create", "create", "create-withdraw"]), st.sampled_from([0, 1, 2, 3, 5, 30, 85, 92, 95, 200])),
    st.tuples(st.just("never"), st.just(0)),
)
case = st.fixed_dictionaries({
    "img": hist.image,
    "policy": gen.policy,
    "version": st.sampled_from(["nautilus", "luminous", "jewel"]),
    "full": st.sampled_from([False, False, False, True]),
    "steps": st.lists(step, min_size=1, max_size=12),
    "consul": st.one_of(st.none(), st.none(), st.fixed_dictionaries({"keys": st.lists(key, max_size=6), "agents": st.lists(agent, min_size=1, max_size=4),
                                                                      "race": st.booleans()})),
})


class KV:
    """the key/value part of the Consul client"""

    def __init__(self, tick):
        self.data = {}
        self.set_at = {}
        self.tick = tick

    def __setitem__(self, k, v):
        self.data[k.lstrip("/")] = v if isinstance(v, (str, bytes)) else json.dumps(v)
        self.tick("set", k.lstrip("/"))

    set = __setitem__

    def _value(self, k):
        v = self.data[k.lstrip("/")]
        return None if v in ("", b"") else v

    def __getitem__(self, k):
        self.tick("get", k)
        return self._value(k)

    def get(self, k, default=None):
        self.tick("get", k)
        try:
            return self._value(k)
        except KeyError:
            return default

    def __delitem__(self, k):
        self.data.pop(k.lstrip("/"), None)

    def delete(self, k, recurse=False):
        del self[k]

    def find(self, prefix, separator=None):
        self.tick("find", prefix)
        return {k: self._value(k) for k in list(self.data) if k.startswith(prefix.lstrip("/"))}

    def keys(self):
        return sorted(self.data)

    def items(self):
        return [{k: self._value(k)} for k in list(self.data)]

    def __contains__(self, k):
        return k.lstrip("/") in self.data

    def __iter__(self):
        return iter(self.keys())


class Consul:
    """Consul and the agent of the machine in virtual time"""

    def __init__(self, w, conf):
        self.w, self.conf = w, conf
        self.vt = 1.7e9
        self.kv = KV(self.tick)
        self.pending = []
        self.n = 0
        self.requests = 0
        self.tokens = []
        for i, k in enumerate(conf["keys"]):
            self.kv.data[f"{k[1]}k{i}".lstrip("/")] = (b"\xff\xfe" if k[2] == "@bytes" else k[2]) if k[0] == "raw" else json.dumps({"vm": k[2], "snapshot": k[3]})

    def client(self, *a, token=None, **kw):
        self.tokens.append(token)
        return self

    def tick(self, what, k):
        if what == "set":
            self.requests += 1
            mode, delay = self.conf["agents"][self.n % len(self.conf["agents"])]
            if mode != "never":
                self.pending.append((self.vt + delay, k, mode))
        if what == "get" and self.conf["race"]:
            # somebody else withdraws the request meanwhile
            if self.own(k):
                self.kv.data.pop(k)

    def own(self, k):
        try:
            v = json.loads(self.kv.data[k])
            return v["vm"] == "me" and v["snapshot"].startswith("backy-") and k.startswith("snapshot/")
        except Exception:
            return False

    def sleep(self, s):
        self.vt += s
        for p in list(self.pending):
            if p[0] <= self.vt:
                self.pending.remove(p)
                v = self.kv.data.get(p[1])
                if v is None:
                    continue
                name = json.loads(v)["snapshot"]
                if name not in self.w.img.snaps():
                    self.w.img.snap_create(name)
                if p[2] == "create-withdraw":
                    del self.kv.data[p[1]]

    def time(self):
        return self.vt


def run_case(case, env):
    w = hist.World(env.dir(), case["img"])
    clock = install_clock()
    clock.tick = datetime.timedelta(seconds=1)
    saved = time.sleep, time.time, consulate.Consul
    consul = None
    if case["consul"]:
        consul = Consul(w, case["consul"])
        time.sleep, time.time, consulate.Consul = consul.sleep, consul.time, consul.client
    try:
        return go(case, w, clock, consul)
    finally:
        time.sleep, time.time, consulate.Consul = saved
        restore_clock()


def foreign_state(w):
    t = tree(w.ceph.root)
    return {k: v for k, v in t.items() if not k.startswith("rbd/img/snap/backy-") and k.split("/")[0] not in ("cfg", "log", "maps")
            and not k.startswith("mapdev")}


def go(case, w, clock, consul):
    labels = set()
    w.ceph.set(**case["policy"])
    w.ceph.set(version=case["version"])
    os.makedirs(w.path)
    source = {"type": "rbd", "pool": "rbd", "image": "img", "full-always": case["full"]}
    if consul:
        source |= {"vm": "me", "consul_acl_token": "secret"}
        labels.add("consul")
    w.write_config(source)
    for pool, name in (("rbd", "img2"), ("rbd2", "img"), ("rbd", "im")):
        i = w.ceph.image(pool, name, b"other" + name.encode())
        i.snap_create("backy-1")
        i.snap_create("mine")
    (w.ceph.root / "maps").mkdir()
    previous = None  # newest own revision whose snapshot must be the base of the next backup
    nbackup = 0
    interesting = 0
    for i, s in enumerate(case["steps"]):
        clock.advance(60)
        if s[0] == "guest":
            w.guest(s[1])
        elif s[0] in ("snap", "own"):
            w.img.snap_create(s[1])
        elif s[0] == "protect":
            sn = w.img.snaps()
            if sn:
                w.img.protect(sn[s[1] % len(sn)])
        elif s[0] == "map":
            sn = w.img.snaps() + ["-"]
            n = len(w.ceph.maps())
            if n < 6:
                (w.ceph.root / "maps" / str(n)).write_text(f"rbd img {sn[s[1] % len(sn)]} /dev/other{n}\n")
        elif s[0] == "rm":
            revs = list(w.complete())
            if revs:
                u = revs[s[1] % len(revs)]
                r = repo(w.path)
                r.rm([r.find_by_uuid(u)])
                if u == previous:
                    previous = None
        elif s[0] == "foreign":
            w.foreign(s[1])
        else:
            previous, fs = one(case, w, consul, s[1], previous, labels, f"step {i}: backup")
            if consul:
                consul.n += 1
            nbackup += 1
            interesting += fs
    return Info(nbackup > 0 and interesting > 0, labels)


def one(case, w, consul, faults, previous, labels, what):
    lines, nodev = [], False
    w.ceph.set(mutate=None, nodev=0)
    for f in faults:
        if f[0] == "cmd":
            lines.append(f"faultcmd {f[1]} {f[2]} {f[3][0]} {f[3][1]}")
        elif f[0] == "n":
            lines.append(f"fault {f[1]} {f[2][0]} {f[2][1]}")
        elif f[0] == "nodev":
            w.ceph.set(nodev=1)
        elif w.img.size:
            w.ceph.set(mutate=f"0 1 {w.img.size} -1")
    w.ceph.set_faults(lines)
    w.ceph.reset_log()
    before = foreign_state(w)
    maps = {m: (w.ceph.root / "maps" / m).read_text() for m in w.ceph.maps()}
    own_before = [x for x in w.img.snaps() if x.startswith("backy-")]
    prot = [x for x in own_before if w.img.protected(x)]
    keys = dict(consul.kv.data) if consul else {}
    code, uuid, _ = c08.attempt(w)
    log = w.ceph.log()
    w.ceph.set_faults([])
    hit = set()  # commands that were disturbed
    counts = {}
    for i, (cmd, _) in enumerate(log):
        n = counts[cmd] = counts.get(cmd, -1) + 1
        for f in faults:
            if f[0] == "cmd" and f[1] == cmd and f[2] in (-1, n) or f[0] == "n" and f[1] == i:
                hit.add(cmd)
    for f in faults:
        labels.add(f"fault-{f[0]}")
    labels.add("success" if code == 0 else "failure")
    what = f"{what} with faults {faults} ({'ok' if code == 0 else 'failed'}; commands {[c for c, _ in log]})"
    after = foreign_state(w)
    check(after == before, f"{what}: foreign snapshots, images or the live image changed: {tree_diff(before, after)}")
    maps2 = {m: (w.ceph.root / "maps" / m).read_text() for m in w.ceph.maps()}
    check(set(maps) <= set(maps2) and all(maps[m] == maps2[m] for m in maps), f"{what}: foreign mappings changed: {maps} -> {maps2}")
    if "unmap" not in hit:
        check(maps2 == maps, f"{what}: mappings stay behind: {maps2}")
    for m in set(maps2) - set(maps):
        (w.ceph.root / "maps" / m).unlink()
    own_after = [x for x in w.img.snaps() if x.startswith("backy-")]
    created = set(own_after) - set(own_before)
    check(created <= {f"backy-{uuid}"}, f"{what}: unexpected new snapshots {created}")
    revs = read_rev_files(w.path)
    complete = sorted((r["timestamp"], u) for u, r in revs.items() if "duration" in r["stats"] and not r.get("server"))
    taken = any(cmd in ("export", "export-diff", "map") for cmd, _ in log)
    if not hit & {"snap-rm", "snap-ls", "snap-create"} and not prot and taken:
        check(len(own_after) <= 1, f"{what}: several own snapshots stay: {own_after}")
        if code == 0:
            newest = complete[-1][1]
            want = [] if case["full"] else [f"backy-{newest}"]
            check(own_after == want, f"{what}: own snapshots are {own_after} instead of {want}")
        if own_before != own_after and own_before:
            labels.add("cleaned")
    elif prot and not hit and code == 0:
        want = sorted(set(prot) | (set() if case["full"] else {f"backy-{complete[-1][1]}"}))
        check(own_after == want, f"{what}: own snapshots are {own_after} instead of {want} ({prot} cannot be deleted)")
        labels.add("protected")
    if previous and not hit and code == 0 and not case["full"]:
        args = [a for c, a in log if c == "export-diff"]
        check(args and f"--from-snap backy-{previous}" in args[0] and not any(c == "export" for c, _ in log), f"{what}: not incremental: {log}")
        labels.add("incremental")
    if case["full"]:
        check(not any(c == "export-diff" for c, _ in log), f"{what}: incremental in always-full mode")
    if consul:
        left = [k for k in consul.kv.data if consul.own(k)]
        reached = any(c == "snap-ls" for c, _ in log) and consul.requests
        if consul.requests:
            check(not left, f"{what}: own snapshot requests stay: {[(k, consul.kv.data[k]) for k in left]}")
        for k, v in keys.items():
            if k in consul.kv.data:
                check(consul.kv.data[k] == v, f"{what}: Consul key {k} was changed: {v!r} -> {consul.kv.data[k]!r}")
                continue
            if k.startswith("snapshot/"):
                try:
                    d = json.loads(v)
                    ok = not isinstance(d, dict) or not isinstance(d.get("vm"), str) or not isinstance(d.get("snapshot"), str)
                    ok = ok or d["vm"] == "me" and d["snapshot"].startswith("backy-")
                except ValueError:
                    ok = True
            else:
                ok = False
            check(ok, f"{what}: Consul key {k} = {v!r} of another machine or tool was removed")
        if set(consul.kv.data) - set(keys):
            check(False, f"{what}: new Consul keys {set(consul.kv.data) - set(keys)}")
        if len(keys) > len(consul.kv.data):
            labels.add("withdrawn")
    if not faults:
        check(code == 0, f"{what}: a backup without any fault failed; Consul {keys}")
    ok = code == 0 and not hit & {"snap-rm", "snap-ls", "snap-create"}
    return (complete[-1][1] if ok and complete and not case["full"] else None), bool(hit or own_before or consul and keys)


CAMPAIGNS = [
    Campaign("snapshots", case, run_case, "a backup ran with a fault, earlier own snapshots or foreign Consul keys", batch=20),
]

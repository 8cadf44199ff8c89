"""C28 Commands report the truth and read-only commands change nothing."""
import asyncio
import datetime
import fcntl
import json
import logging
import os
import re
import subprocess
import sys

from hypothesis import strategies as st

from lib import gen, hist, meta
from lib.core import Campaign, HarnessError, Info, check, pattern, same
from lib.memnet import Net
from lib.vloop import BASE, Daemons
from lib.world import LOCKFILES, UTC, fast_environment, fast_yaml, install_clock, quiet_main, tree, tree_diff
from props.c08 import CMDS, mode
from props.c14 import Bad, Ref, Unjudged

PROP = "C28"
TECHNIQUE = "stateful property-based testing of generated command lines, source outcomes and lock states against a reference model"
LEVEL = "exploration"
NOTE = "up to 10 commands per history in one process, up to 3 with real processes, up to 8 against several jobs of a running daemon"
ASSUMPTIONS = ["tables are judged at unlimited terminal width", "commands over several repositories are all or nothing for each of them, not altogether",
               "verifying a file backup means checking that its data is there", "spellings of tags with commas, line breaks or surrounding blanks are not judged"]
START = datetime.datetime(2024, 3, 1, 12, 0, 0, tzinfo=UTC)
SCHEDULE = {"daily": {"interval": "1d", "keep": 5}, "weekly": {"interval": "7d", "keep": 3}}
SKIP = LOCKFILES + ("backy.log",)


def worker_init(env):
    os.environ["COLUMNS"] = "700"
    fast_environment()
    quiet_main()
    fast_yaml()
    meta.inline_sources()
    logging.disable(logging.CRITICAL)


TAGS = ["daily", "weekly", "manual:a", "old", "manual:[x]", "manual:[/]", "manual:[red]b", "manual:heart:", "manual:\\[", "manual:ü ö"]
SPECS = ["all", "all", "last", "first", "0", "1", "2", "local", "local", "remote", "clean", "clean&local", "tag:daily", "tag:none", "0..1", "not(last)", "9", "nope", "0,1",
         "tag:daily&local", "reverse(all)", "server:peer", "(", "trust:trusted", "trust:distrusted&local", "first(tag:weekly)", "last(clean&local)", "last(local)", "1..",
         ["id", 0], ["id", 1], ["id", 2]]
spec = st.sampled_from(SPECS)
ONE = ["latest", "last", "first", "0", "1", "2", "7", "last(clean&local)", "last(clean&local)", "first(clean&local)", "first(tag:none)", "nope", "all", ["id", 0], ["id", 1], ["id", 1], ["id", 2]]
fate = st.sampled_from(["ok"] * 8 + ["exit 1", "exit 2", "kill 9", "kill 15", "missing", "late 1", "late kill"])
fates = st.lists(fate, max_size=3)
tagarg = st.lists(st.sampled_from(TAGS[:3] * 2 + TAGS), min_size=1, max_size=3, unique=True)
COMMANDS = {
    "rev-parse": st.tuples(st.just("rev-parse"), spec, st.booleans()),
    "log": st.tuples(st.just("log"), spec, st.booleans()),
    "check": st.tuples(st.just("check")),
    "restore": st.tuples(st.just("restore"), st.sampled_from(ONE), st.sampled_from(["new", "new", "existing", "nodir", "isdir", "self"]), fates),
    "backup": st.tuples(st.just("backup"), tagarg, st.booleans(), fates),
    "rm": st.tuples(st.just("rm"), spec),
    "tags": st.tuples(st.just("tags"), spec, st.sampled_from(["set", "add", "remove"]), tagarg, st.booleans(), st.booleans(), st.one_of(st.none(), st.none(), tagarg)),
    "distrust": st.tuples(st.just("distrust"), spec),
    "verify": st.tuples(st.just("verify"), spec, fates),
    "gc": st.tuples(st.just("gc"), st.sampled_from(["", "", "", "expire-local", "expire"]), fates),
    "reports-list": st.tuples(st.just("reports-list")),
    "reports-show": st.tuples(st.just("reports-show"), st.lists(st.integers(0, 4), max_size=3, unique=True)),
    "reports-delete": st.tuples(st.just("reports-delete"), st.lists(st.integers(0, 4), max_size=3, unique=True)),
    "bad": st.tuples(st.just("bad"), st.sampled_from([["init", "file"], ["init", "x"], ["nonsense"], ["rm"], ["restore"], ["restore", "-r", "0"], ["--jobs", "x", "verify"],
                                                      ["reports-delete"], ["gc", "--local", "x"], ["backup"], ["tags", "move", "a"], ["-a", "--jobs", "y", "log"]])),
}
EVENTS = [
    st.tuples(st.just("lock"), st.sampled_from([".backup", ".purge"])), st.tuples(st.just("unlock")), st.tuples(st.just("unlock")),
    st.tuples(st.just("advance"), st.sampled_from([3600, 86400, 130000, 700000])),
    st.tuples(st.just("drop"), st.integers(0, 5)), st.tuples(st.just("source"), st.booleans(), st.integers(0, 9)), st.tuples(st.just("junk"), st.integers(0, 3)),
]
step = st.one_of(*COMMANDS.values(), *EVENTS, COMMANDS["backup"], COMMANDS["gc"], COMMANDS["verify"], COMMANDS["restore"])
revs = st.lists(meta.rev_strategy(tags=TAGS[:4] * 2 + TAGS, maxtags=2), max_size=5)
case = st.fixed_dictionaries({"revs": revs, "reports": st.integers(0, 3), "steps": st.lists(step, min_size=1, max_size=10), "how": st.integers(0, 3),
                              "dry": st.sets(st.integers(0, 9), max_size=2).map(sorted)})


class Fates:
    """decides how the processes of a source end"""

    def __init__(self):
        self.real = subprocess.run
        self.queue = []
        self.seen = []

    def __enter__(self):
        subprocess.run = self.run
        return self

    def __exit__(self, *exc):
        subprocess.run = self.real

    def run(self, args, *a, **kw):
        f = self.queue.pop(0) if self.queue else "ok"
        self.seen.append(f)
        rc = {"exit 1": 1, "exit 2": 2, "kill 9": -9, "kill 15": -15, "late 1": 1, "late kill": -9}.get(f)
        if f == "missing":
            raise FileNotFoundError(2, "no such file", args[0])
        if rc is not None and not f.startswith("late"):
            return subprocess.CompletedProcess(args, rc)
        p = self.real(args, *a, **kw)
        return p if rc is None else subprocess.CompletedProcess(args, rc)


def content(i):
    return pattern(2, i, 50 + 13 * (i % 7))


class World:
    def __init__(self, d, case):
        self.d = d
        self.path = os.path.join(d, "vm")
        self.source = os.path.join(d, "source")
        meta.build(self.path, case["revs"], START, SCHEDULE)
        meta.write_config(self.path, SCHEDULE, {"type": "file", "filename": self.source})
        q = os.path.join(self.path, "quarantine")
        os.makedirs(q)
        self.reports = [f"report{i}" for i in range(case["reports"])]
        for i, r in enumerate(self.reports):
            with open(os.path.join(q, r + ".report"), "w") as f:
                f.write(f"text: of {r}\n")
        for n, (u, r) in enumerate(meta.on_disk(self.path).items()):
            if not r["server"]:
                with open(os.path.join(self.path, u), "wb") as f:
                    f.write(content(n)[:None if "duration" in r["stats"] else 7])
        with open(self.source, "wb") as f:
            f.write(content(99))
        self.locks = {}
        for x in LOCKFILES:
            open(os.path.join(self.path, x), "w").close()

    def hist(self):
        return sorted(meta.on_disk(self.path).values(), key=lambda r: r["timestamp"])

    def data(self):
        out = {}
        for e in os.scandir(self.path):
            if re.fullmatch("[2-9A-HJ-NP-Za-km-z]{22}", e.name):
                with open(e.path, "rb") as f:
                    out[e.name] = f.read()
        return out


def text(s, hist):
    return meta.uid(s[1]) if isinstance(s, (list, tuple)) else s


def select(hist, s):
    """uuids, None: invalid"""
    try:
        return [r["uuid"] for r in Ref(hist).parse(s)]
    except Bad:
        return None


def find(hist, s):
    """the uuid that stands for one revision"""
    if re.match(r"(first|last)\(", s):
        u = select(hist, s)
        return u[0] if u else None
    try:
        return Ref(hist).single(s)["uuid"]
    except Bad:
        return None


def complete(r):
    return "duration" in r["stats"]


def rows(out):
    r = []
    for line in out.splitlines():
        if line.startswith("│"):
            r.append([c.strip() for c in line.strip("│").split("│")])
    return r


def tagcell(r):
    tags, orig = set(r["tags"]), set(r["orig_tags"])
    if r["server"] and tags != orig:
        return {"+" + t for t in tags - orig} | {"-" + t for t in orig - tags} | tags & orig
    return tags


def check_table(out, recs, what):
    rs = rows(out)
    check(len(rs) == len(recs), f"{what}: {len(rs)} rows for {len(recs)} revisions: {out}")
    for row, r in zip(rs, recs):
        check(row[1] == r["uuid"], f"{what}: shows {row[1]} instead of {r['uuid']}")
        want = tagcell(r)
        got = set(row[4].split(",")) if row[4] else set()
        check(got == want and row[5] == r["trust"] and row[6] == r["server"], f"{what}: shows {row} for {r}")
    n = re.search(r"(?m)^(\d+) revisions containing", out)
    check(n and int(n.group(1)) == len(recs), f"{what}: summary is {out.splitlines()[-1:]} for {len(recs)} revisions")


def run_case(case, env):
    d = env.dir()
    w = World(d, case)
    clock = install_clock()
    clock.t = START
    labels = set()
    with Fates() as w.fates:
        try:
            for n, s in enumerate(case["steps"]):
                clock.t += datetime.timedelta(seconds=1)
                w.clock = clock
                w.how = (case["how"] + n) % 4
                w.dry = n in case["dry"]
                if s[0] in COMMANDS:
                    command(w, s, labels)
                else:
                    event(w, s, clock)
        finally:
            for f in w.locks.values():
                f.close()
    return Info(len(labels & {"done", "failed"}) > 0 and len(labels) >= 3, labels)


def event(w, s, clock):
    if s[0] == "lock":
        if s[1] not in w.locks:
            f = open(os.path.join(w.path, s[1]))
            fcntl.flock(f, (fcntl.LOCK_EX if s[1] == ".backup" else fcntl.LOCK_SH) | fcntl.LOCK_NB)
            w.locks[s[1]] = f
    elif s[0] == "unlock":
        for f in w.locks.values():
            f.close()
        w.locks.clear()
    elif s[0] == "advance":
        clock.advance(s[1])
    elif s[0] == "drop":
        # the data of a revision gets lost
        names = sorted(w.data())
        if names:
            os.unlink(os.path.join(w.path, names[s[1] % len(names)]))
    elif s[0] == "source":
        if s[1]:
            with open(w.source, "wb") as f:
                f.write(content(100 + s[2]))
        elif os.path.exists(w.source):
            os.unlink(w.source)
    elif s[0] == "junk":
        with open(os.path.join(w.path, meta.uid(900 + s[1])), "wb") as f:
            f.write(b"junk")


READING = ("rev-parse", "log", "check", "restore", "reports-list", "reports-show", "bad")


def argv(w, s, sp):
    k = s[0]
    if k == "rev-parse":
        return ["rev-parse", *(["--uuid"] if s[2] else []), "-r", sp]
    if k == "log":
        return ["log", *(["--json"] if s[2] else []), "-r", sp]
    if k == "backup":
        return ["backup", *(["-f"] if s[2] else []), ",".join(s[1])]
    if k in ("rm", "distrust", "verify"):
        return [k, "-r", sp]
    if k == "tags":
        return ["tags", *(["--autoremove"] if s[4] else []), *(["-f"] if s[5] else []), *(["--expect", ",".join(s[6])] if s[6] else []), "-r", sp, s[2], ",".join(s[3])]
    if k == "gc":
        return ["gc"] + {"": [], "expire": ["--expire"], "expire-local": ["--expire", "--local"]}[s[1]]
    if k in ("reports-show", "reports-delete"):
        ids = ",".join(f"report{i}" for i in s[1])
        return [k] + ([ids] if s[1] else ["--all-reports"] if k == "reports-delete" else [])
    if k == "bad":
        return s[1]
    return [k]


def command(w, s, labels):
    hist = w.hist()
    data = w.data()
    k = s[0]
    sp = text(s[1], hist) if k in ("rev-parse", "log", "restore", "rm", "tags", "distrust", "verify") else None
    args = argv(w, s, sp)
    target = None
    if k == "restore":
        where = {"new": "out/new", "existing": "out/existing", "nodir": "out/no/x", "isdir": "out/dir"}.get(s[2])
        target = os.path.join(w.d, where) if where else os.path.join(w.path, find(hist, sp) or "x")
        os.makedirs(os.path.join(w.d, "out", "dir"), exist_ok=True)
        with open(os.path.join(w.d, "out", "existing"), "wb") as f:
            f.write(pattern(1, 3, 500))
        args = ["restore", "-r", sp, "file", target]
        if os.path.exists(os.path.join(w.d, "out/new")):
            os.unlink(os.path.join(w.d, "out/new"))
    w.fates.queue = list(s[-1]) if k in ("restore", "backup", "verify", "gc") else []
    w.fates.seen = []
    before = tree(w.path, skip=SKIP)
    path = [w.path, w.path + "/", os.path.join(w.path, "..", "vm"), os.path.relpath(w.path)][w.how]
    if w.dry:
        outside = tree(w.d)
        rc, out, err = meta.cli(path, "-n", *args)
        check(tree(w.d) == outside, lambda: f"backy -n {' '.join(args)}: modified {tree_diff(outside, tree(w.d))}")
        labels.add("dry run")
        return
    rc, out, err = meta.cli(path, *args)
    after = tree(w.path, skip=SKIP)
    now = {r["uuid"]: r for r in w.hist()}
    old = {r["uuid"]: r for r in hist}
    newdata = w.data()
    what = f"backy {' '.join(args)} (processes: {w.fates.seen}, locks: {sorted(w.locks)})"
    ok = rc == 0
    ran_ok = all(f == "ok" for f in w.fates.seen)
    labels.add(k)
    labels.add("done" if ok else "failed")
    if not ran_ok:
        labels.add("failing process")
    if w.locks:
        labels.add("locked")
    if k in READING:
        check(before == after, lambda: f"{what}: modified the repository: {tree_diff(before, after)}")
    if not ok and args != ["gc", "--expire", "--local"]:  # (expires first)
        # complete revisions are untouched
        for u, r in old.items():
            if complete(r):
                check(now.get(u) == r and newdata.get(u) == data.get(u), f"{what}: exit status {rc}, but revision {u} changed from {r} to {now.get(u)}")
    sel = recs = None
    if sp is not None and k != "restore":
        try:
            sel = select(hist, sp)
        except Unjudged:
            return
        recs = [old[u] for u in sel] if sel is not None else None

    def verdict(want, why=""):
        check(ok == want, f"{what}: exit status {rc} {why} ({len(hist)} revisions, selected: {sel})\n{out[-300:]}")

    def effect(want):
        """exactly these records on success"""
        if ok:
            for u in set(want) | set(now):
                check(want.get(u) == now.get(u), f"{what}: revision {u} is {now.get(u)} instead of {want.get(u)}")
    if k == "rev-parse":
        verdict(sel is not None)
        if ok:
            want = [u if s[2] else os.path.join(os.path.realpath(w.path), u + ".rev") for u in sel]
            check(out.splitlines() == want, f"{what}: prints {out.splitlines()} instead of {want}")
    elif k == "log":
        verdict(sel is not None)
        if ok and s[2]:
            got = json.loads(out)
            for g in got:
                g["timestamp"] = datetime.datetime.fromisoformat(g["timestamp"])
            check([meta.canonical(g) for g in got] == recs, f"{what}: prints {got} instead of {recs}")
        elif ok:
            check_table(out, recs, what)
    elif k == "check":
        done = [r for r in hist if complete(r)]
        late = done and (w.clock.t - done[-1]["timestamp"]).total_seconds() > 1.5 * 86400
        want = 2 if late else 1 if w.reports else 0
        check(rc == want, f"{what}: exit status {rc} instead of {want} (latest {done[-1:]}, now {w.clock.t}, reports {w.reports})")
        labels.add(f"check {want}")
    elif k == "restore":
        try:
            u = find(hist, sp)
        except Unjudged:
            return
        why = "no such revision" if u is None else "no data" if u not in data else "no such directory" if s[2] == "nodir" else "onto itself" if s[2] == "self" else \
            "" if ran_ok else "failing process"
        verdict(not why, f"although {why or 'nothing is wrong'}")
        if ok:
            t = os.path.join(target, u) if s[2] == "isdir" else target
            with open(t, "rb") as f:
                got = f.read()
            check(got == data[u], f"{what}: restored {got!r} instead of {data[u]!r}")
            labels.add("restored")
    elif k == "backup":
        unknown = {t for t in s[1] if not t.startswith("manual:") and t not in SCHEDULE}
        why = "locked" if ".backup" in w.locks else f"unknown tags {unknown}" if unknown and not s[2] else "" if ran_ok else "failing process"
        if not why and not os.path.exists(w.source):
            why = "there is no source"
        verdict(not why, f"although {why or 'nothing is wrong'}")
        added = [r for u, r in now.items() if u not in old and complete(r)]
        if ok:
            check(len(added) == 1 and set(added[0]["tags"]) == set(s[1]) and added[0]["trust"] == "trusted" and not added[0]["server"], f"{what}: added {added}")
            with open(w.source, "rb") as f:
                check(newdata.get(added[0]["uuid"]) == f.read(), f"{what}: stored other data")
            for u, r in old.items():
                check(now.get(u) == r or not complete(r) and not r["server"] and u not in now, f"{what}: revision {u} became {now.get(u)}")
        else:
            check(not added or any(f.startswith("late") for f in w.fates.seen), f"{what}: exit status {rc}, but there is a new revision {added}")
            left = [r for u, r in now.items() if u not in old and not complete(r)]
            check(not left, f"{what}: exit status {rc}, the incomplete revisions {left} are left")
    elif k == "rm":
        verdict(sel is not None and ".backup" not in w.locks)
        want = dict(old)
        for u in sel or []:
            if old[u]["server"]:
                want[u] = dict(old[u], tags=[])
            else:
                del want[u]
        effect(want)
    elif k == "tags":
        unknown = {t for t in s[3] if not t.startswith("manual:") and t not in SCHEDULE}
        why = "locked" if ".backup" in w.locks else "bad selection" if sel is None else f"unknown tags {unknown}" if unknown and not s[5] and s[2] != "remove" else \
            "not the expected tags" if s[6] and any(set(old[u]["tags"]) != set(s[6]) for u in sel) else ""
        verdict(not why, f"although {why or 'nothing is wrong'}")
        want = dict(old)
        for u in sel or []:
            t = set(old[u]["tags"])
            t = set(s[3]) if s[2] == "set" else t | set(s[3]) if s[2] == "add" else t - set(s[3])
            want[u] = dict(old[u], tags=sorted(t))
            if not t and s[4] and not old[u]["server"]:
                del want[u]
        effect(want)
    elif k == "distrust":
        verdict(sel is not None and ".backup" not in w.locks and not any(old[u]["server"] for u in sel))
        effect({u: dict(r, trust="distrusted") if u in (sel or []) else r for u, r in old.items()})
    elif k == "verify":
        verdict(sel is not None and ran_ok and all(u in data for u in sel), f"with data of {sorted(data)}")
        if ok:
            check(len(w.fates.seen) == len(sel), f"{what}: {len(sel)} revisions are selected, {len(w.fates.seen)} processes were started")
    elif k == "gc":
        why = "not possible" if s[1] == "expire" else "locked" if ".purge" in w.locks or ".backup" in w.locks and s[1] else "" if ran_ok else "failing process"
        if why and s[1] == "expire-local" and ok is False:
            return  # (expired before)
        verdict(not why, f"although {why or 'nothing is wrong'}")
        if ok:
            if not s[1]:
                effect(old)
            check(set(newdata) == {u for u in data if u in now}, f"{what}: data of {sorted(newdata)} is left, there are the revisions {sorted(now)}")
    elif k == "reports-list":
        verdict(True)
        check(sorted(out.split()) == sorted(w.reports), f"{what}: prints {out}, there are {w.reports}")
    elif k == "reports-show":
        ids = [f"report{i}" for i in s[1]] or sorted(w.reports)
        verdict(all(i in w.reports for i in ids))
        if ok:
            check(sorted(out.split("\n")) == sorted("".join(f"{i}\ntext: of {i}\n\n" for i in ids).split("\n")), f"{what}: prints {out}")
    elif k == "reports-delete":
        ids = [f"report{i}" for i in s[1]] or list(w.reports)
        verdict(all(i in w.reports for i in ids))
        left = sorted(x[:-7] for x in os.listdir(os.path.join(w.path, "quarantine")) if x.endswith(".report"))
        check(set(w.reports) - set(ids) <= set(left) <= set(w.reports) and not (ok and set(ids) & set(left)), f"{what}: of {w.reports}, {left} are left")
        w.reports = left
        gone = {f"quarantine/{x}.report" for x in ids}
        check({a: b for a, b in before.items() if a not in gone} == {a: b for a, b in after.items() if a not in gone}, lambda: f"{what}: changed {tree_diff(before, after)}")
    elif k == "bad":
        verdict(False)


# ---------------------------------------------------------------- real processes

pfate = st.sampled_from(["ok", "ok", "ok", "exit 3", "kill 9", "kill 15", "late kill"])
pstep = st.one_of(
    st.tuples(st.just("backup"), st.sampled_from(["daily", "manual:a", "bad"]), pfate),
    st.tuples(st.just("restore"), st.sampled_from(["last", "0", "5"]), pfate),
    st.tuples(st.just("verify"), st.just("all"), pfate),
    st.tuples(st.just("gc"), pfate),
    st.tuples(st.just("rm"), st.sampled_from(["first", "9"])),
    st.tuples(st.just("rev-parse"), st.sampled_from(["all", "nope"])),
)
pcase = st.fixed_dictionaries({"revs": st.lists(meta.rev_strategy(tags=["daily"], servers=[""], maxtags=1, maxage=3600), max_size=2), "reports": st.just(0), "steps": st.lists(pstep, min_size=1, max_size=3)})


def run_process(case, env):
    d = env.dir()
    w = World(d, case)
    bin_ = os.path.join(d, "bin")
    os.makedirs(bin_)
    with open(os.path.join(bin_, "backy-file"), "w") as f:
        f.write(f"#!/bin/sh\ncase \"$FATE\" in kill*) kill -${{FATE#kill }} $$;; exit*) exit ${{FATE#exit }};; esac\n"
                f"{sys.executable} -c 'from backy.file import main; main()' \"$@\"\nrc=$?\n[ \"$FATE\" = 'late kill' ] && kill -9 $$\nexit $rc\n")
    os.chmod(os.path.join(bin_, "backy-file"), 0o755)
    labels = set()
    for s in case["steps"]:
        old = {r["uuid"]: r for r in w.hist()}
        hist = w.hist()
        data = w.data()
        f = s[-1] if s[0] in ("backup", "restore", "verify", "gc") else "ok"
        out = os.path.join(d, "out")
        args = {"backup": ["backup", s[1]], "restore": ["restore", "-r", s[1], "file", out], "verify": ["verify", "-r", s[1]], "gc": ["gc"], "rm": ["rm", "-r", s[1]],
                "rev-parse": ["rev-parse", "--uuid", "-r", s[1]]}[s[0]]
        p = subprocess.run([sys.executable, "-c", "from backy.cli import main; main()", "-C", w.path, *args], cwd=d, capture_output=True, text=True, timeout=80,
                           env={**os.environ, "PATH": bin_ + ":" + os.environ["PATH"], "FATE": f})
        what = f"backy {' '.join(args)} (process: {f})"
        now = {r["uuid"]: r for r in w.hist()}
        if s[0] == "backup":
            why = "unknown tag" if s[1] == "bad" else "" if f == "ok" else f
        elif s[0] == "restore":
            u = find(hist, s[1])
            why = "no such revision" if u is None else "" if f == "ok" else f
        elif s[0] == "verify":
            why = "" if f == "ok" or not hist else f
        elif s[0] == "gc":
            why = "" if f == "ok" else f
        else:
            why = "" if select(hist, s[1]) is not None else "no such revision"
        check((p.returncode == 0) == (not why), f"{what}: exit status {p.returncode}, expected {why or 'success'}\n{p.stdout[-300:]}{p.stderr[-600:]}")
        labels.add(s[0])
        labels.add(f)
        if p.returncode == 0:
            if s[0] == "backup":
                added = [r for u, r in now.items() if u not in old]
                check(len(added) == 1 and complete(added[0]) and w.data().get(added[0]["uuid"]) == content(99), f"{what}: added {added}")
            elif s[0] == "restore":
                with open(out, "rb") as fh:
                    check(fh.read() == data[u], f"{what}: restored other data")
            elif s[0] == "rm":
                check(set(now) == set(old) - set(select(hist, s[1])), f"{what}: {sorted(now)} are left of {sorted(old)}")
            elif s[0] == "rev-parse":
                check(p.stdout.split() == select(hist, s[1]), f"{what}: prints {p.stdout}")
            elif s[0] == "gc":
                check(set(w.data()) == {u for u in data if u in now}, f"{what}: leaves {sorted(w.data())}")
        else:
            for u, r in old.items():
                check(not complete(r) or now.get(u) == r and w.data().get(u) == data.get(u), f"{what}: failed, but revision {u} changed")
    return Info(len(labels) >= 2, labels)


# ---------------------------------------------------------------- several jobs of a daemon

NAMES = ["vm0", "vm1", "a.b-c", "[red]x", "x[\\b]", ":heart:", "ü y"]
HOST, PORT = "127.0.0.1", 6023
FILTERS = ["", "vm", "^vm0$", "0", "[ab]", "nothing", "x", "^a\\.b", "gone", ".*", "(", "y$"]
which = st.one_of(st.tuples(st.just("all")), st.tuples(st.just("jobs"), st.sampled_from(FILTERS)), st.tuples(st.just("jobs"), st.sampled_from(FILTERS)), st.tuples(st.just("dir"), st.integers(0, 3)))
fstep = st.one_of(
    st.tuples(st.just("show-jobs"), which), st.tuples(st.just("show-jobs"), which), st.tuples(st.just("show-daemon")),
    st.tuples(st.just("bg"), which), st.tuples(st.just("bg"), which),
    st.tuples(st.just("reload"), st.lists(st.booleans(), min_size=4, max_size=4)),
    st.tuples(st.just("multi"), which, st.one_of(COMMANDS["rev-parse"], COMMANDS["log"], COMMANDS["check"], COMMANDS["rm"], COMMANDS["tags"], COMMANDS["distrust"], COMMANDS["reports-list"])),
    st.tuples(st.just("api"), st.sampled_from(["down", "up", "up", "token"])),
    st.tuples(st.just("wait"), st.sampled_from([1, 15, 3600, 100000])),
)
fcase = st.fixed_dictionaries({
    "names": st.permutations(range(len(NAMES))).map(lambda x: list(x)[:4]), "active": st.lists(st.sampled_from([True, True, False]), min_size=4, max_size=4),
    "revs": st.lists(revs, min_size=4, max_size=4), "reports": st.lists(st.integers(0, 1), min_size=4, max_size=4),
    "steps": st.lists(fstep, min_size=1, max_size=8), "tag": st.sampled_from(["daily", "daily", "[b]daily", "[/x]"]),
})


def run_fleet(case, env):
    d = env.dir()
    base = os.path.join(d, "base")
    os.makedirs(base)
    names = [NAMES[i] for i in case["names"]]
    sched = {case["tag"]: {"interval": "1d", "keep": 50}, "weekly": {"interval": "7d", "keep": 50}}
    for n, r, q in zip(names, case["revs"], case["reports"]):
        p = os.path.join(base, n)
        meta.build(p, r, BASE - datetime.timedelta(seconds=10), sched)
        os.makedirs(os.path.join(p, "quarantine"))
        for i in range(q):
            open(os.path.join(p, "quarantine", f"r{i}.report"), "w").close()
    labels = set()
    runs = []

    def handler(args):
        if "backup" in args:
            name = os.path.basename(args[args.index("-C") + 1].rstrip("/"))
            runs.append(name)
            return 10, 1, None, b""
        return 0, 0, None, b""

    with Daemons(d, handler) as ds:
        net = Net(ds.loop)
        state = {"fault": None}
        net.fault = lambda host, port: state["fault"]

        def conf(active, token="t"):
            return {"global": {"base-dir": base, "worker-limit": 20}, "api": {"addrs": HOST, "port": PORT, "tokens": {"t": "cli"}, "cli-default": {"url": f"http://{HOST}:{PORT}", "token": token}},
                    "schedules": {"s": sched}, "jobs": {n: {"schedule": "s", "source": {"type": "file", "filename": "/nonexistent"}} for n, a in zip(names, active) if a}}

        dm = ds.daemon(conf(case["active"]))
        ds.call(dm.api_server)
        ds.loop.spin(200)
        active = case["active"]
        token = "t"
        real = asyncio.run
        asyncio.run = ds.wait
        try:
            for s in case["steps"]:
                if s[0] == "wait":
                    ds.loop.run(s[1])
                    continue
                if s[0] == "api":
                    state["fault"] = ("refuse",) if s[1] == "down" else None
                    token = "wrong" if s[1] == "token" else "t"
                    ds.config(conf(active, token))
                    continue
                if s[0] == "reload":
                    active = s[1]
                    ds.config(conf(active, token))
                    fleet(ds, dm, d, base, names, s, sched, state["fault"] is None and token == "t", runs, labels)
                    if state["fault"] is not None or token != "t":
                        ds.call(dm.reload)
                        ds.loop.spin(200)
                    continue
                fleet(ds, dm, d, base, names, s, sched, state["fault"] is None and token == "t", runs, labels)
        finally:
            asyncio.run = real
    return Info(len(labels) >= 3, labels)


def fleet(ds, dm, d, base, names, s, sched, up, runs, labels):
    def cli(w, *args):
        opts = {"all": ["-a"], "jobs": ["--jobs", w[1]] if len(w) > 1 else [], "dir": [], "none": []}[w[0]]
        path = os.path.join(base, names[w[1]]) if w[0] == "dir" else d
        ds.loop._selector.turns = 0
        r = meta.cli(path, *opts, *args, config=os.path.join(d, "backy.conf"))
        return r

    def picked(w):
        """names, None: impossible"""
        if w[0] == "dir":
            return [names[w[1]]]
        try:
            f = re.compile(".*" if w[0] == "all" else w[1])
        except re.error:
            return None
        return [n for n in dm.jobs if f.search(n)] or None
    what = f"{s} with jobs {list(dm.jobs)} and dead {sorted(dm.dead_repositories)}{'' if up else ' (the daemon cannot be reached)'}"
    labels.add(s[0])
    labels.add("up" if up else "not reachable")
    if s[0] == "show-jobs":
        sel = picked(s[1])
        status = {j["job"]: j for j in ds.call(dm.status)}
        rc, out, err = cli(s[1], "show-jobs")
        check((rc == 0) == (up and sel is not None), f"{what}: exit status {rc}, expected to show {sel}\n{out}")
        if rc == 0:
            rs = rows(out)
            live = [r for r in rs if r[3] != "Dead"]
            sel = sorted(n for n in sel if n in status)
            check([r[0] for r in live] == sel, f"{what}: shows {[r[0] for r in live]} instead of {sel}")

            def t(x):
                return set(x.split(",")) - {""} if x else set()
            for r in live:
                j = status[r[0]]
                check(r[1] == j["sla"] and r[3] == j["status"] and t(r[5]) == t(j["last_tags"]) and t(r[8]) == t(j["next_tags"]), f"{what}: shows {r} for {j}")
                check((r[4] == "-") == (not j["last_time"]) and (r[7] == "-") == (not j["next_time"]), f"{what}: shows {r} for {j}")
            dead = [r[0] for r in rs if r[3] == "Dead"]
            if s[1][0] != "dir":
                f = re.compile(".*" if s[1][0] == "all" else s[1][1])
                check(sorted(dead) == sorted(n for n in dm.dead_repositories if f.search(n)), f"{what}: shows {dead} as dead")
            n = re.search(r"(?m)^(\d+) jobs shown", out)
            check(n and int(n.group(1)) == len(rs), f"{what}: shows {len(rs)} jobs and says {n and n.group(0)!r}")
            labels.add("shown " + s[1][0])
    elif s[0] == "show-daemon":
        want = {}
        for j in ds.call(dm.status):
            want[j["status"]] = want.get(j["status"], 0) + 1
        if dm.dead_repositories:
            want["Dead"] = len(dm.dead_repositories)
        rc, out, err = cli(("none",), "show-daemon")
        check((rc == 0) == up, f"{what}: exit status {rc}")
        if rc == 0:
            got = {r[0]: int(r[1]) for r in rows(out)}
            check(got == want, f"{what}: shows {got} instead of {want}")
    elif s[0] == "reload":
        rc, out, err = cli(("none",), "reload-daemon")
        ds.loop.spin(200)
        check((rc == 0) == up, f"{what}: exit status {rc}")
        if up:
            want = sorted(n for n, a in zip(names, s[1]) if a)
            check(sorted(dm.jobs) == want, f"{what}: the daemon has the jobs {sorted(dm.jobs)} instead of {want}")
    elif s[0] == "bg":
        sel = picked(s[1])
        was = {n: j.status for n, j in dm.jobs.items()}
        n0 = len(runs)
        rc, out, err = cli(s[1], "backup", "--bg", "manual:x")
        ds.loop.spin(200)
        possible = up and sel is not None and all(n in dm.jobs for n in sel)
        check((rc == 0) == possible, f"{what}: exit status {rc} for {sel}")
        started = runs[n0:]
        for n in dm.jobs:
            triggered = n in started or dm.jobs[n].run_immediately.is_set()
            if rc == 0 and n in sel:
                check(triggered, f"{what}: {n} ({was[n]}) was not triggered")
                labels.add("triggered")
            elif not up or n not in (sel or []):
                check(n not in started, f"{what}: {n} was started")
    else:
        c = s[2]
        sel = picked(s[1])
        if s[1][0] != "dir" and not up:
            sel = None
        hists = {n: sorted(meta.on_disk(os.path.join(base, n)).values(), key=lambda r: r["timestamp"]) for n in names}
        before = {n: tree(os.path.join(base, n), skip=SKIP) for n in names}
        sp = text(c[1], None) if c[0] in ("rev-parse", "log", "rm", "tags", "distrust") else None
        rc, out, err = cli(s[1], *argv(None, c, sp))
        after = {n: tree(os.path.join(base, n), skip=SKIP) for n in names}
        changed = {n for n in names if before[n] != after[n]}
        check(changed <= set(sel or []), f"{what}: changed {changed}, selected were {sel}")
        check(not changed or c[0] in ("rm", "tags", "distrust"), f"{what}: changed {changed}")
        if sel is None:
            check(rc != 0, f"{what}: exit status 0 although no job could be selected")
            return
        labels.add("multi " + c[0])
        labels.add(f"{min(len(sel), 2)} repositories")
        good = True
        printed = []
        level = 0
        for n in sel:
            hist = hists[n]
            old = {r["uuid"]: r for r in hist}
            us = None
            if sp is not None:
                try:
                    us = select(hist, sp)
                except Unjudged:
                    return
                good &= us is not None
            now = {r["uuid"]: r for r in meta.on_disk(os.path.join(base, n)).values()}
            want = dict(old)
            if c[0] == "check":
                done = [r for r in hist if complete(r)]
                late = done and (ds.loop.now() - done[-1]["timestamp"]).total_seconds() > 1.5 * 86400
                level = max(level, 2 if late else 1 if any(x.endswith(".report") for x in os.listdir(os.path.join(base, n, "quarantine"))) else 0)
            elif c[0] == "reports-list":
                printed += sorted(x[:-7] for x in os.listdir(os.path.join(base, n, "quarantine")) if x.endswith(".report"))
            elif us is None:
                pass
            elif c[0] == "rev-parse":
                printed += [u if c[2] else os.path.join(os.path.realpath(base), n, u + ".rev") for u in us]
            elif c[0] == "rm":
                for u in us:
                    if old[u]["server"]:
                        want[u] = dict(old[u], tags=[])
                    else:
                        del want[u]
            elif c[0] == "distrust":
                if any(old[u]["server"] for u in us):
                    good = False
                else:
                    for u in us:
                        want[u] = dict(old[u], trust="distrusted")
            elif c[0] == "tags":
                if not c[5] and c[2] != "remove" and any(not t.startswith("manual:") and t not in sched for t in c[3]):
                    good = False
                elif c[6] and any(set(old[u]["tags"]) != set(c[6]) for u in us):
                    good = False
                else:
                    for u in us:
                        t = set(old[u]["tags"])
                        t = set(c[3]) if c[2] == "set" else t | set(c[3]) if c[2] == "add" else t - set(c[3])
                        want[u] = dict(old[u], tags=sorted(t))
                        if not t and c[4] and not old[u]["server"]:
                            del want[u]
            check(now == want or rc != 0 and now == old, f"{what}: exit status {rc}, {n} has {now} instead of {want}")
        if c[0] == "check":
            check(rc == level, f"{what}: exit status {rc} instead of {level}")
        else:
            check((rc == 0) == good, f"{what}: exit status {rc} for {sel}\n{out[-300:]}")
        if rc == 0 and c[0] in ("rev-parse", "reports-list"):
            check(out.splitlines() == printed, f"{what}: prints {out} instead of {printed}")


# ---------------------------------------------------------------- images

rfault = st.tuples(st.sampled_from(CMDS), st.sampled_from([0, 0, 1, -1]), mode)
rstep = st.one_of(
    st.tuples(st.just("backup"), st.lists(hist.guest, max_size=2), st.lists(rfault, max_size=1), st.sampled_from([None, None, None, [5, 3], [100000, 1]])),
    st.tuples(st.just("backup"), st.lists(hist.guest, max_size=2), st.just([]), st.just(None)),
    st.tuples(st.just("restore"), st.integers(0, 3), st.sampled_from(["new", "old", "dir"]), st.booleans()),
    st.tuples(st.just("restore"), st.integers(0, 3), st.sampled_from(["new", "old", "dir"]), st.booleans()),
    st.tuples(st.just("verify"), st.one_of(st.none(), st.integers(0, 3))),
    st.tuples(st.just("damage"), hist.damage),
    st.tuples(st.just("gc")),
    st.tuples(st.just("distrust"), st.integers(0, 3)),
    st.tuples(st.just("rm"), st.integers(0, 3)),
)
rcase = st.fixed_dictionaries({"img": hist.image, "first": st.booleans(), "steps": st.lists(rstep, min_size=1, max_size=6)})


def run_images(case, env):
    w = hist.World(env.dir(), case["img"])
    clock = install_clock()
    clock.t = START
    os.makedirs(w.path)
    w.write_config()
    labels = set()
    steps = ([["backup", [], [], None]] if case["first"] else []) + case["steps"]
    for s in steps:
        clock.advance(3600)
        images(w, s, labels)
    return Info(len(labels & {"backup 0", "backup 1", "restore 0", "restore 1", "verify 0", "verify 1"}) >= 2, labels)


def images(w, s, labels):
    old = {r["uuid"]: r for r in meta.on_disk(w.path).values()}
    order = sorted(old, key=lambda u: old[u]["timestamp"])
    ok_chunks = hist.intact(w.path)
    lines, wrong = [], False
    w.ceph.set(mutate=None)

    def healthy(u):
        try:
            m, size = w.chunks_of(u)
        except FileNotFoundError:
            return False
        return all(ok_chunks.get(h) for h in m.values())
    sound = {u for u in order if healthy(u)}
    if s[0] == "damage":
        hist.apply_damage(w.path, s[1])
        return
    if s[0] == "backup":
        for o in s[1]:
            w.guest(o)
        lines = [f"faultcmd {c} {n} {m[0]} {m[1]}" for c, n, m in s[2]]
        if s[3] and 0 < w.img.size <= 4 << 20:
            off = s[3][0] % w.img.size
            w.ceph.set(mutate=f"{off} {s[3][1]} {min(10, w.img.size - off)} -1")
            wrong = True
        args = ["backup", "daily"]
    elif s[0] in ("verify", "distrust", "rm", "restore"):
        u = order[s[1] % len(order)] if order and s[1] is not None else None
        if u is None and s[0] != "verify":
            return
        args = [s[0], "-r", u or "all"]
    else:
        args = ["gc"]
    target = os.path.join(w.d, "target")
    if s[0] == "restore":
        if os.path.exists(target):
            os.unlink(target)
        if s[2] == "old":
            with open(target, "wb") as f:
                f.write(pattern(2, 3, (5 << 20) + 17))
        args += ["rbd", *(["--backend", "python"] if s[3] else []), os.path.join(w.d, "chunks") if s[2] == "dir" else target]
        os.makedirs(os.path.join(w.d, "chunks"), exist_ok=True)
    content = w.img.content
    w.ceph.set_faults(lines)
    w.ceph.reset_log()
    rc, out, err = meta.cli(w.path, *args)
    w.ceph.set_faults([])
    what = f"backy {' '.join(args)} ({s})"
    now = {r["uuid"]: r for r in meta.on_disk(w.path).values()}
    labels.add(f"{s[0]} {int(rc != 0)}")
    if s[0] == "backup":
        added = [r for u, r in now.items() if u not in old and complete(r)]
        if rc == 0:
            check(len(added) == 1 and not wrong, f"{what}: exit status 0, the new complete revisions are {added}{', but the source differs' if wrong else ''}")
            u = added[0]["uuid"]
            # (unless based on damaged chunks)
            if healthy(u):
                same(f"{what}: the new revision", hist.restore_bytes(w.path, u, w.d), content)
                w.model[u] = content
        # (unused damaged chunks may be met, too)
        elif not lines and not wrong and all(ok_chunks.values()) and all(u in sound for u in order if complete(old[u])):
            check(False, f"{what}: exit status {rc}, but nothing is wrong")
        if rc:
            left = [u for u, r in now.items() if not complete(r)]
            check(not left, f"{what}: exit status {rc}, the incomplete revisions {left} are left")
            labels.add("wrong" if wrong else "fault")
        for u, r in old.items():
            check(not complete(r) or u in now or u not in sound, f"{what}: {u} disappeared")
    elif s[0] == "restore":
        u = args[2]
        good = s[2] != "dir" and u in sound
        if rc == 0:
            check(s[2] != "dir", f"{what}: exit status 0")
            if u in w.model:
                with open(target, "rb") as f:
                    same(f"{what}: exit status 0, the target", f.read(), w.model[u])
        check(not good or rc == 0, f"{what}: exit status {rc}, but nothing is wrong")
        check(now == old, f"{what}: changed the revisions from {old} to {now}")
    elif s[0] == "verify":
        sel = order if args[2] == "all" else [args[2]]
        bad = [u for u in sel if u not in sound]
        # (chunks of verified revisions are known to be good)
        known = {h for u in order if old[u]["trust"] == "verified" for h in w.chunks_of(u)[0].values()} if order else set()
        certain = [u for u in sel if old[u]["trust"] != "verified" and any(h not in known and not ok_chunks.get(h) for h in w.chunks_of(u)[0].values())]
        if rc == 0:
            for u in sel:
                r = now.get(u)
                check(r is None or r["trust"] == "verified", f"{what}: exit status 0, {u} is {r}")
            left = [u for u in certain if u in now]
            check(not left, f"{what}: exit status 0, the damaged revisions {left} remain")
        check(bad or rc == 0, f"{what}: exit status {rc}, but nothing is wrong")
        for u in order:
            check(u in now or u in bad, f"{what}: removed {u}")
    elif s[0] == "gc":
        used = set()
        for u in order:
            used |= set(w.chunks_of(u)[0].values())
        left = set(hist.intact(w.path))
        check(rc == 0, f"{what}: exit status {rc}")
        check(left == used & set(ok_chunks) and now == old, f"{what}: {len(left)} chunks are left, {len(used & set(ok_chunks))} are in use")
    else:
        want = {u: dict(r, trust="distrusted") if u == args[2] else r for u, r in old.items()} if s[0] == "distrust" else {u: r for u, r in old.items() if u != args[2]}
        check(rc == 0 and now == want, f"{what}: exit status {rc}, {now} instead of {want}")


CAMPAIGNS = [
    Campaign("commands", case, run_case, "commands of at least two kinds or with failing processes or locks were run", weight=3, batch=40),
    Campaign("fleet", fcase, run_fleet, "at least three kinds of commands or states of the daemon were seen", weight=2, batch=15),
    Campaign("images", rcase, run_images, "backups, restores or verifications with at least two outcomes", weight=2, batch=15),
    Campaign("process", pcase, run_process, "at least two kinds of commands or outcomes were seen", weight=1, batch=2),
]

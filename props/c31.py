"""C31 Logging never gets in the way and loses nothing."""
import contextlib
import io
import os
import re
import resource
import sys
from pathlib import Path

import structlog
from hypothesis import strategies as st

import backy.cli
import backy.logging
from lib import gen, meta
from lib.core import Campaign, Info, check, same
from lib.fsmon import fork_run
from lib.hist import World, _write_config, guest, image
from lib.vloop import BASE, Daemons
from lib.world import chunk_files, fast_environment, fast_yaml, mapping_of, read_rev_files, restore_bytes

PROP = "C31"
TECHNIQUE = ("property-based testing: generated events through the real logging set-up into generated (also unusable) destinations against a model of the record format; "
             "metamorphic: the same operations and daemon histories with working and with unusable destinations")
LEVEL = "exploration"
NOTE = ("up to 12 events per case with arbitrary values, names, outputs and exceptions; destinations working, full, broken or temporarily out of space; "
        "all repository commands; daemons of 1-3 jobs over up to three days")
ASSUMPTIONS = ["event names, subsystems and value names are the identifiers that the code uses", "the log file can be opened"]

real_init = backy.logging.init_logging


def worker_init(env):
    fast_environment()
    fast_yaml()
    meta.inline_sources()


@contextlib.contextmanager
def logging_to(stderr):
    """real logging set-ups are effective in here"""
    old = structlog.get_config()
    err = sys.stderr
    sys.stderr = stderr
    try:
        yield
    finally:
        sys.stderr = err
        structlog.configure(**old)


class Console:
    """a console of the given kind, as a text file like sys.stderr"""

    def __init__(self, kind):
        self.kind = kind
        self.r = None
        enc = "ascii" if kind == "ascii" else "utf-8"
        if kind in ("closed", "ok", "ascii"):
            self.r, w = os.pipe()
            if kind == "closed":
                os.close(self.r)
                self.r = None
            else:
                import fcntl
                fcntl.fcntl(w, fcntl.F_SETPIPE_SZ, 1 << 20)
        else:
            w = os.open("/dev/full", os.O_WRONLY)
        self.f = io.TextIOWrapper(io.FileIO(w, "w"), encoding=enc, errors="backslashreplace", write_through=True)
        self.encoding = enc

    def content(self):
        try:
            self.f.close()
        except OSError:
            pass
        if self.r is None:
            return None
        out = b""
        while b := os.read(self.r, 1 << 20):
            out += b
        os.close(self.r)
        return out.decode(self.encoding)


# --- single events

text = st.one_of(st.text(max_size=8), st.sampled_from(["", "vm1", "a b", "ü", "\udcff", "a\udc80b", "{x}", "%s", "[/bold]", "\x1b[31m", "x" * 60, "'", '"']))
lines = st.one_of(text, st.sampled_from(["one\ntwo", "\n", "a\n\nb\n", "tail\r\n", "\udcff\n\udcfe"]))
name = st.one_of(st.sampled_from(["vm1", "vm1", "test01", "ünï", "x\udcff", "with space", "a" * 30]), st.text(st.characters(blacklist_characters="\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"), min_size=1, max_size=6))
value = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(), lines), lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(max_size=3), c, max_size=2)), max_leaves=4)
KEYS = ["revision_uuid", "tags", "zeta", "a", "job", "msg", "key", "func_args", "value", "exc", "stack_depth", "Event", "path"]
event = st.fixed_dictionaries({
    "level": st.sampled_from(["debug", "info", "warning", "error", "critical"]),
    "event": st.sampled_from(["x", "backup-started", "quite-a-long-event-name-of-more-than-35-characters", "woken"]),
    "subsystem": st.sampled_from([None, None, "command", "rbd", "backy-extract", ""]),
    "job": st.one_of(st.none(), name), "sub": st.sampled_from([None, None, "ABCD", ""]),
    "kw": st.lists(st.tuples(st.sampled_from(KEYS), value), max_size=4, unique_by=lambda x: x[0]),
    "exc": st.sampled_from([None, None, None, "exception", "info", "instance", "short", "banner"]), "text": lines, "type": st.sampled_from(["msg", "msg", "empty", "two", "os", "key", "chain", "bytes"]),
    "blocks": st.fixed_dictionaries({}, optional={"stdout": lines, "stderr": lines, "_output": lines, "_fmt_msg": st.sampled_from(["Hello.", "two\nlines", "{tags}", "{nothing}", "{a!r:>3}", "{zeta.x}"])}),
    "bound": st.booleans(),
})
events_case = st.fixed_dictionaries({
    "verbose": st.booleans(), "taskid": st.sampled_from([None, "AAAA", "T1"]),
    "file": st.sampled_from(["ok", "ok", "ok", "full", "none", "space"]), "console": st.sampled_from(["ok", "ok", "ascii", "closed", "full"]),
    "events": st.lists(event, min_size=1, max_size=12), "blocked": st.tuples(st.integers(0, 6), st.integers(1, 4), st.sampled_from([0, 0, 1, 30, 300])),
    "old": st.sampled_from(["", "earlier entries\n"]),
})
TS = r"\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(?:\.\d+)?(?:[+-]\d\d:\d\d|Z)? "


class Oops(Exception):
    pass


def throw(e):
    t, x = e["type"], e["text"]
    if t == "chain":
        try:
            raise ValueError("first")
        except ValueError as first:
            raise Oops(x) from first
    raise {"msg": lambda: Oops(x), "empty": lambda: Oops(), "two": lambda: Oops(x, 3), "os": lambda: OSError(2, "No such file or directory", x), "key": lambda: KeyError(x),
           "bytes": lambda: Oops(b"\xff")}[t]()


def exc_text(e):
    return {"msg": lambda x: x, "empty": lambda x: "", "two": lambda x: repr((x, 3)), "os": lambda x: f"[Errno 2] No such file or directory: {x!r}", "key": lambda x: repr(x),
            "chain": lambda x: x, "bytes": lambda x: repr(b"\xff")}[e["type"]](e["text"])


def emit(log, e):
    kw = dict(e["kw"])
    kw.update(e["blocks"])
    ctx = {}
    if e["subsystem"] is not None:
        ctx["subsystem"] = e["subsystem"]
    if e["job"] is not None:
        ctx["job_name"] = e["job"]
    if e["sub"] is not None:
        ctx["sub_taskid"] = e["sub"]
    if e["bound"]:
        log = log.bind(**ctx)
    else:
        kw.update(ctx)
    fn = getattr(log, e["level"])
    if e["exc"] is None:
        fn(e["event"], **kw)
        return
    try:
        throw(e)
    except Exception as err:
        if e["exc"] == "exception":
            log.exception(e["event"], **kw)
        elif e["exc"] == "info":
            fn(e["event"], exc_info=True, **kw)
        elif e["exc"] == "instance":
            fn(e["event"], exc_info=err, **kw)
        else:
            fn(e["event"], exc_style=e["exc"], **kw)


def pref(p, s):
    return f"{p}>\t" + s.replace("\n", f"\n{p}>\t")


def fmt(s, kw):
    """what the formatted messages used here must give"""
    if s == "{tags}":
        return f"{kw['tags']}" if kw.get("tags") is not None else "<missing>"
    if s == "{nothing}":
        return "<missing>"
    if s == "{a!r:>3}":
        return f"{kw['a']!r:>3}" if "a" in kw else None
    if s == "{zeta.x}":
        return "<missing>"
    return s


def expected(e, taskid):
    """-> regular expression of the record"""
    esc = re.escape
    level = "error" if e["exc"] == "exception" else e["level"]
    out = TS
    if taskid is not None:
        out += esc(taskid) + " "
    out += level[0].upper() + " "
    job = e["job"] if e["job"] is not None else "-"
    if e["sub"]:
        job += f"[{e['sub']}]"
    if job:
        out += esc(job) + " +"
    out += esc((e["subsystem"] + "/" if e["subsystem"] else "") + e["event"]) + " +"
    vals = {k: repr(v) for k, v in e["kw"]}
    if e["exc"]:
        vals["exception_class"] = None
        vals["exception_msg"] = repr(exc_text(e))
    out += " ".join(k + "=" + (esc(vals[k]) if vals[k] is not None else r"'[\w.]*(?:Oops|Error)'") for k in sorted(vals))
    b = e["blocks"]
    if b.get("_fmt_msg"):
        m = fmt(b["_fmt_msg"], dict(e["kw"]))
        out += esc("\n" + pref("", "\n" + m + "\n")) if m is not None else r"\n>\t\n>\t[^\n]*\n>\t"
    for k, p in (("_output", ""), ("stdout", "out"), ("stderr", "err")):
        if k in b:
            out += esc("\n" + pref(p, "\n" + b[k] + "\n"))
    if e["exc"] == "banner":
        out += esc("\n" + pref("exception", "\n" + exc_text(e) + "\n"))
    elif e["exc"] and e["exc"] != "short":
        tb = esc("exception>\tTraceback (most recent call last):\n") + r"(?:exception>\t  [^\n]*\n)*"
        out += "\n"
        if e["type"] == "chain":
            out += tb + esc("exception>\tValueError: first\nexception>\t\nexception>\tThe above exception was the direct cause of the following exception:\nexception>\t\n")
        x = exc_text(e)
        out += tb + r"exception>\t[\w.]*(?:Oops|Error)" + esc((": " + x if x else "").replace("\n", "\nexception>\t"))
    return out + "\n"


def expected_in(e, taskid, encoding):
    pat = expected(e, taskid)
    out = ""
    for c in pat:
        try:
            c.encode(encoding)
            out += c
        except UnicodeEncodeError:
            # re.escape leaves such characters alone
            out += re.escape(c.encode(encoding, "backslashreplace").decode(encoding))
    return out


def verify(what, content, evs, taskid, encoding, exact=True):
    pos = 0
    for i, e in enumerate(evs):
        pat = re.compile(expected_in(e, taskid, encoding))
        m = pat.match(content, pos) if exact else pat.search(content, pos)
        check(m, lambda: f"{what}: event {i} {e} is not recorded as such; instead: {content[pos:pos + 500]!r}, expected {pat.pattern[:500]!r}")
        pos = m.end()
    if exact:
        check(pos == len(content), lambda: f"{what}: there is more than what was logged: {content[pos:pos + 400]!r}")


LEVELS = {"debug": 0, "info": 1, "warning": 2, "error": 3, "critical": 4}


def run_events(case, env):
    d = env.dir()
    kind = case["file"]
    path = {"none": None, "full": "/dev/full"}.get(kind, os.path.join(d, "backy.log"))
    if kind in ("ok", "space"):
        with open(path, "w") as f:
            f.write(case["old"])
    con = Console(case["console"])
    first, count, room = case["blocked"]
    blocked = set()
    hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    try:
        with logging_to(con.f):
            real_init(case["verbose"], Path(path) if path else None, {"taskid": case["taskid"]} if case["taskid"] else None)
            log = structlog.stdlib.get_logger()
            for i, e in enumerate(case["events"]):
                if kind == "space" and first <= i < first + count:
                    blocked.add(i)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (os.path.getsize(path) + room, hard[1]))
                try:
                    emit(log, e)
                except Exception as x:
                    check(False, f"logging {e} to file {kind!r}{' (out of space)' if i in blocked else ''} and console {case['console']!r} raises {type(x).__name__}: {x}")
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, hard)
    finally:
        text = con.content()
    evs = case["events"]
    if kind in ("ok", "space"):
        with open(path, encoding="utf-8", errors="replace" if blocked else "strict", newline="") as f:
            got = f.read()
        check(got.startswith(case["old"]), "earlier entries of the log file are lost")
        got = got[len(case["old"]):]
        verify("log file", got, [e for i, e in enumerate(evs) if i not in blocked], case["taskid"], "utf-8", exact=not blocked)
    if text is not None:
        shown = [e for e in evs if case["verbose"] or LEVELS["error" if e["exc"] == "exception" else e["level"]] >= 1]
        verify("console", text, shown, case["taskid"], con.encoding)
    labels = [f"file {kind}", f"console {case['console']}"] + (["exceptions"] if any(e["exc"] for e in evs) else []) + (["temporarily out of space"] if blocked else [])
    hard_ = kind in ("full", "space") or case["console"] in ("closed", "full", "ascii") or any("\\udc" in repr(e) or e["exc"] or e["blocks"] for e in evs)
    return Info(nontrivial=hard_, labels=labels)


# --- operations

SINKS = ["full", "closed", "both", "fullerr", "weird"]
op = st.one_of(
    st.tuples(st.just("backup"), st.lists(guest, max_size=2)),
    st.tuples(st.just("backup"), st.lists(guest, max_size=2)),
    st.tuples(st.just("restore"), st.integers(0, 3)), st.tuples(st.just("verify"), st.integers(0, 3)), st.tuples(st.just("distrust"), st.integers(0, 3)),
    st.tuples(st.just("tags"), st.integers(0, 3)), st.tuples(st.just("rm"), st.integers(0, 3)), st.tuples(st.just("gc"), st.just(0)),
    st.tuples(st.just("expire"), st.just(0)), st.tuples(st.just("badtag"), st.just(0)), st.tuples(st.just("failing"), st.just(0)),
)
ops_case = st.fixed_dictionaries({"img": image, "sink": st.sampled_from(SINKS), "verbose": st.booleans(), "ops": st.lists(op, min_size=1, max_size=5)})


def in_child(path, sink, argv):
    """the backy command with real logging -> exit status"""
    def child():
        if sink in ("closed", "both"):
            r, w = os.pipe()
            os.close(r)
        elif sink in ("fullerr", "weird"):
            w = os.open("/dev/full", os.O_WRONLY)
        else:
            w = os.open(os.devnull, os.O_WRONLY)
        sys.stderr = io.TextIOWrapper(io.FileIO(w, "w"), errors="backslashreplace", write_through=True)
        sys.stdout = meta.Tty()
        sys.argv = ["backy", "-C", path, *argv]
        try:
            backy.cli.main()
            return 0
        except SystemExit as e:
            return e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    kind, rc = fork_run(child, 60)
    check(kind == "ok", f"backy {' '.join(argv)} with {sink!r} log destinations ends with {rc}")
    return rc


def run_ops(case, env):
    w = World(env.dir(), case["img"])
    w.backup()
    sink = case["sink"]
    _write_config(w)
    logfile = os.path.join(w.path, "backy.log")
    if sink in ("full", "both", "weird"):
        os.symlink("/dev/full", logfile)
    v = ["-v"] if case["verbose"] else []

    def run(*argv):
        return in_child(w.path, sink, [*v, *argv])

    n = 0
    for o in case["ops"]:
        order = sorted(w.complete().values(), key=lambda r: r["timestamp"])
        pick = order[o[1] % len(order)]["uuid"] if order and isinstance(o[1], int) else None
        what = f"{o[0]} with {sink!r} log destinations"
        if o[0] == "backup":
            for g in o[1]:
                w.guest(g)
            content = w.img.content
            before = set(w.complete())
            rc = run("backup", "manual:x")
            new = set(w.complete()) - before
            check(rc == 0 and len(new) == 1, f"{what}: exit status {rc}, new revisions {sorted(new)}")
            u = new.pop()
            w.model[u] = content
            w.order.append(u)
            same(f"{what}", restore_bytes(w.path, u, w.d), content)
        elif o[0] == "failing":
            head = os.path.join(w.ceph.root, "rbd", "img")
            before = w.revs()
            os.rename(head, head + ".gone")
            rc = run("backup", "manual:x")
            os.rename(head + ".gone", head)
            check(rc != 0 and w.revs() == before, f"failing backup with {sink!r} log destinations: exit status {rc}, revisions {sorted(w.revs())}")
        elif o[0] == "restore" and pick:
            t = os.path.join(w.d, "out")
            rc = run("restore", "-r", pick, "rbd", "--backend", "python", t)
            check(rc == 0, f"{what}: exit status {rc}")
            with open(t, "rb") as f:
                same(what, f.read(), w.model[pick])
        elif o[0] == "verify" and pick:
            rc = run("verify", "-r", pick)
            check(rc == 0 and w.revs()[pick]["trust"] == "verified", f"{what}: exit status {rc}, trust {w.revs()[pick]['trust']}")
        elif o[0] == "distrust" and pick:
            rc = run("distrust", "-r", pick)
            check(rc == 0 and w.revs()[pick]["trust"] == "distrusted", f"{what}: exit status {rc}, trust {w.revs()[pick]['trust']}")
        elif o[0] == "tags" and pick:
            rc = run("tags", "-r", pick, "add", "manual:new")
            check(rc == 0 and "manual:new" in w.revs()[pick]["tags"], f"{what}: exit status {rc}, tags {w.revs()[pick]['tags']}")
        elif o[0] == "badtag" and order:
            before = w.revs()
            rc = run("tags", "-r", "all", "add", "unknown")
            check(rc != 0 and w.revs() == before, f"{what}: exit status {rc}")
        elif o[0] == "rm" and pick:
            rc = run("rm", "-r", pick)
            check(rc == 0 and pick not in w.revs(), f"{what}: exit status {rc}, revision {'still there' if pick in w.revs() else 'gone'}")
            w.model.pop(pick)
        elif o[0] == "gc":
            rc = run("gc")
            used = set()
            for u in w.revs():
                used |= set(mapping_of(w.path, u)[0].values())
            left = set(chunk_files(w.path))
            check(rc == 0 and left == used, f"{what}: exit status {rc}, {len(left)} chunks are left of which {len(used)} are in use")
        elif o[0] == "expire":
            rc = run("gc", "--expire", "--local")
            check(rc == 0, f"{what}: exit status {rc}")
        else:
            continue
        n += 1
    w.check_restores("finally", only=[u for u in w.model if u in w.revs()])
    w.check_set("finally")
    return Info(nontrivial=n > 0, labels=[sink] + sorted({o[0] for o in case["ops"]}))


# --- daemons

dirs = st.lists(st.sampled_from(["gone1", "gone\xff", "\xfe\xfd", "\xc3\xbc", "a b"]), max_size=2, unique=True)
out = st.sampled_from(["", "done\n", "\xff\xfe", "caf\xe9\n", "\x00", "\xc3\xbc\n"])  # as Latin-1
daemon_case = st.fixed_dictionaries({
    "jobs": st.lists(st.tuples(st.sampled_from(["1h", "6h", "1d"]), st.lists(st.sampled_from([0, 0, 0, 1]), max_size=5)), min_size=1, max_size=3),
    "file": st.sampled_from(["ok", "full", "full", "space"]), "console": st.sampled_from(["ok", "closed", "full"]), "verbose": st.booleans(),
    "space": st.tuples(st.integers(0, 30 * 3600), st.integers(1, 20 * 3600)),
    "dirs": dirs, "out": out, "hours": st.integers(8, 72), "reload": st.booleans(),
})


def history(case, d, healthy):
    """-> starts of all processes of the daemon's jobs"""
    base = os.path.join(d, "base")
    os.makedirs(base)
    for i in range(len(case["jobs"])):
        meta.build(os.path.join(base, f"vm{i}"), [], BASE, {"s": {"interval": case["jobs"][i][0], "keep": 2}})
    if not healthy:
        for n in case["dirs"]:
            p = os.path.join(os.fsencode(base), n.encode("latin-1"))
            os.mkdir(p)
            with open(os.path.join(p, b"config"), "w") as f:
                f.write("schedule: {}\n")
    script = [list(j[1]) for j in case["jobs"]]
    starts = []
    ds = Daemons(d)

    def handler(args):
        now = round(ds.loop.vt, 1)
        if args[0] == "/nonexistent/callback":
            starts.append((now, args[1], "callback"))
            return 1, 0, None, (b"" if healthy else case["out"].encode("latin-1"))
        name = os.path.basename(args[args.index("-C") + 1].rstrip("/"))
        kind = "backup" if "backup" in args else "gc"
        starts.append((now, name, kind))
        if kind == "gc":
            return 2, 0, None
        i = int(name[2:])
        if (script[i].pop(0) if script[i] else 0):
            return 20, 1, None
        path = os.path.join(base, name, args[-1] + ".rev")

        def effect():
            import yaml
            with open(path) as f:
                data = yaml.safe_load(f)
            data["stats"]["duration"] = 20.0
            with open(path + ".new", "w") as f:
                yaml.safe_dump(data, f)
            os.rename(path + ".new", path)
        return 20, 0, effect

    ds.handler = handler
    conf = {
        "global": {"base-dir": base, "worker-limit": 2, "backup-completed-callback": "/nonexistent/callback"},
        "schedules": {f"s{i}": {"s": {"interval": j[0], "keep": 2}} for i, j in enumerate(case["jobs"])},
        "jobs": {f"vm{i}": {"schedule": f"s{i}", "source": {"type": "file", "filename": "/nonexistent"}} for i in range(len(case["jobs"]))},
    }
    hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    logfile = os.path.join(d, "daemon.log")
    if not healthy and case["file"] == "full":
        os.symlink("/dev/full", logfile)
    con = Console("ok" if healthy else case["console"])
    if con.r is not None:
        con.f.close()
        con.f = open(os.devnull, "w")
    try:
        with logging_to(con.f), ds:
            real_init(False if healthy else case["verbose"], Path(logfile))
            try:
                dm = ds.daemon(conf)
            except Exception as x:
                check(False, f"the daemon does not start with file {case['file']!r}, console {case['console']!r} and directories {case['dirs']}: {type(x).__name__}: {x}")
            a, n = case["space"]
            total = case["hours"] * 3600
            if healthy or case["file"] != "space":
                ds.loop.run(total / 2)
                if case["reload"]:
                    ds.call(dm.reload)
                ds.loop.run(total / 2)
            else:
                a = min(a, total - 2)
                n = min(n, total - a)
                marks = sorted({0, a, a + n, total / 2, total})
                for x, y in zip(marks, marks[1:]):
                    if x == total / 2 and case["reload"]:
                        ds.call(dm.reload)
                    # only the log file is as big as that
                    if a <= x < a + n:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (max(os.path.getsize(logfile), 100000), hard[1]))
                    try:
                        ds.loop.run(y - x)
                    finally:
                        resource.setrlimit(resource.RLIMIT_FSIZE, hard)
            dead = [j.name for j in dm.jobs.values() if j._task is None or j._task.done()]
            check(not dead, f"jobs {dead} have stopped with file {case['file']!r}, console {case['console']!r}, callback output {case['out']!r}")
    finally:
        con.content() if con.r is None else os.close(con.r)
    return starts


def run_daemon(case, env):
    d = env.dir()
    a, b = os.path.join(d, "a"), os.path.join(d, "b")
    os.mkdir(a)
    os.mkdir(b)
    if case["file"] == "space":
        # make it big so that only the log file is limited
        with open(os.path.join(b, "daemon.log"), "wb") as f:
            f.truncate(100000)
    want = history(case, a, True)
    got = history(case, b, False)
    if got != want:
        i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        check(False, f"file {case['file']!r}, console {case['console']!r}, directories {case['dirs']}, callback output {case['out']!r}: "
                     f"the daemon's processes differ from number {i}: {got[i:i + 4]} instead of {want[i:i + 4]}")
    return Info(nontrivial=bool(want) and (case["file"] != "ok" or case["console"] != "ok" or bool(case["dirs"]) or case["out"] not in ("", "done\n")),
                labels=[f"file {case['file']}", f"console {case['console']}"] + (["undecodable names"] if any("\xff" in x or "\xfe" in x for x in case["dirs"]) else []))


CAMPAIGNS = [
    Campaign("events", events_case, run_events, "an unusual destination, value, exception or output", weight=1.0),
    Campaign("operations", ops_case, run_ops, "at least one operation ran", weight=1.0),
    Campaign("daemon", daemon_case, run_daemon, "an unusable destination or unusual names or outputs", weight=1.0),
]

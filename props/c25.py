"""C25 File backups restore exactly and survive garbage collection."""
import datetime
import os

from hypothesis import strategies as st

from lib import gen, meta
from lib.core import Campaign, Info, check, pattern, same
from lib.fsmon import Counter, Monitor, fork_run
from lib.meta import cli
from lib.world import UTC, fast_environment, install_clock, quiet_main, read_rev_files, tree, tree_diff
from props.c16 import rule

PROP = "C25"
TECHNIQUE = "stateful model-based testing of the command line with a file source against a model of contents, tags and retention"
LEVEL = "exploration"
NOTE = "histories of up to 14 commands with generated file contents (0 to ~300 kB), missing sources and failing writes; source processes run in-process"
ASSUMPTIONS = ["the source file does not change while it is copied"]
CLOCK = None
SCHED = {"daily": ["1d", 2], "weekly": ["7d", 2]}
CONF = {t: {"interval": i, "keep": k} for t, (i, k) in SCHED.items()}


def worker_init(env):
    global CLOCK
    fast_environment()
    quiet_main()
    meta.inline_sources()
    CLOCK = install_clock()


tags = st.lists(st.sampled_from(["daily", "daily", "weekly", "manual:a", "manual:b"]), min_size=1, max_size=2, unique=True)
content = st.tuples(gen.kinds, gen.seeds, st.one_of(st.integers(0, 200), st.integers(0, 300000), st.sampled_from([0, 65536, 1 << 20])))
who = st.integers(0, 9)
op = st.one_of(
    st.tuples(st.just("write"), content),
    st.tuples(st.just("edit"), st.integers(0, 300000), content),
    st.tuples(st.just("truncate"), st.integers(0, 300000)),
    st.tuples(st.just("same"), st.integers(0, 10 ** 6), st.sampled_from(["keep", "old", "new", "none", "ancient"]), st.sampled_from(["inplace", "replace"])),
    st.tuples(st.just("same"), st.integers(0, 10 ** 6), st.sampled_from(["keep", "old", "new", "none", "ancient"]), st.sampled_from(["inplace", "replace"])),
    st.tuples(st.just("backup"), tags), st.tuples(st.just("backup"), tags), st.tuples(st.just("backup"), tags),
    st.tuples(st.just("missing"), tags),
    st.tuples(st.just("fault"), tags, st.integers(0, 14), st.sampled_from([5, 28]), st.booleans(), st.booleans()),
    st.tuples(st.just("tags"), st.sampled_from(["set", "add", "remove"]), tags, who, st.booleans()),
    st.tuples(st.just("rm"), who),
    st.tuples(st.just("expire")), st.tuples(st.just("gc")), st.tuples(st.just("gc")),
    st.tuples(st.just("verify"), who),
    st.tuples(st.just("distrust"), who),
    st.tuples(st.just("restore"), who, st.one_of(st.none(), content)),
    st.tuples(st.just("clock"), st.one_of(st.integers(1, 3600), st.integers(1, 5 * 86400), st.integers(1, 30 * 86400))),
)
case = st.fixed_dictionaries({"first": content, "ops": st.lists(op, min_size=3, max_size=14), "foreign": st.integers(0, 3)})


def run_case(case, env):
    d = env.dir()
    path = os.path.join(d, "vm")
    src = os.path.join(d, "disk image")
    os.makedirs(path)
    meta.write_config(path, CONF, {"type": "file", "filename": src})
    CLOCK.t = datetime.datetime(2024, 3, 1, 12, tzinfo=UTC)
    data = {"cur": pattern(*case["first"])}
    with open(src, "wb") as f:
        f.write(data["cur"])
    model, contents, order = {}, {}, []
    if case["foreign"]:
        # metadata pulled from another server: there is no data for it here
        r = meta.record(900, meta.utc(CLOCK.t, 50 * 86400), ["daily"] if case["foreign"] > 1 else [], "peer", orig=["daily"])
        meta.write_rev(path, r)
        model[r["uuid"]] = meta.canonical(r)
    labels = set()

    def pick(i):
        return order[i % len(order)] if order else None

    def backup(tags, what, child=False):
        before = set(read_rev_files(path))
        CLOCK.advance(1)
        rc, out, err = child() if child else cli(path, "backup", ",".join(tags))
        new = {u: r for u, r in read_rev_files(path).items() if u not in before}
        return rc, new

    def accept(new, tags, what):
        check(len(new) == 1, f"{what}: successful backup left {len(new)} new revisions")
        for u, r in new.items():
            check("duration" in r["stats"], f"{what}: the new revision is incomplete")
            check(set(r["tags"]) == set(tags), f"{what}: tags are {r['tags']}")
            model[u] = meta.canonical(r)
            contents[u] = data["cur"]
            order.append(u)

    for o in case["ops"]:
        what = str(o)
        CLOCK.advance(1)
        if o[0] == "write":
            data["cur"] = pattern(*o[1])
        elif o[0] == "edit":
            b = bytearray(data["cur"])
            at = min(len(b), o[1])
            p = pattern(*o[2])
            b[at:at + len(p)] = p
            data["cur"] = bytes(b)
        elif o[0] == "truncate":
            data["cur"] = data["cur"][:o[1]]
        elif o[0] == "same":
            # other content of the same length; modification times prove nothing
            b = bytearray(data["cur"])
            if b:
                b[o[1] % len(b)] ^= 1 + o[1] % 255
            data["cur"] = bytes(b)
            stat = os.stat(src)
            if o[3] == "replace":
                os.unlink(src)
            with open(src, "r+b" if o[3] == "inplace" else "wb") as f:
                f.write(data["cur"])
            t = {"keep": stat.st_mtime, "old": CLOCK.t.timestamp() - o[1], "new": CLOCK.t.timestamp() + o[1], "ancient": 5.0, "none": None}[o[2]]
            if t is not None:
                os.utime(src, (t, t))
            labels.add("same size")
            continue
        if o[0] in ("write", "edit", "truncate"):
            with open(src, "wb") as f:
                f.write(data["cur"])
            continue
        if o[0] == "clock":
            CLOCK.advance(o[1])
            continue
        if o[0] == "backup":
            rc, new = backup(o[1], what)
            check(rc == 0, f"{what}: backup fails with {rc}")
            accept(new, o[1], what)
            labels.add("backup")
        elif o[0] == "missing":
            os.rename(src, src + "~")
            rc, new = backup(o[1], what)
            os.rename(src + "~", src)
            check(rc != 0, f"{what}: backup without source reports success")
            check(not new, f"{what}: a failed backup left {new}")
            labels.add("missing source")
        elif o[0] == "fault":
            def child():
                def go():
                    c = Counter(at=o[2], action="kill" if o[5] else "fail", errno=o[3], persist=o[4])
                    with Monitor(path, c):
                        return cli(path, "backup", ",".join(o[1]))
                res = fork_run(go)
                return res[1] if res[0] == "ok" else (137, "", "")
            before = set(read_rev_files(path))
            rc, new = backup(o[1], what, child)
            complete = {u: r for u, r in new.items() if "duration" in r["stats"]}
            if rc == 0:
                accept(complete, o[1], what)
            elif complete:
                accept(complete, o[1], what)
            labels.add("fault")
            for u in set(new) - set(complete):
                # an interrupted backup is cleaned up by the next one
                model[u] = None
        elif o[0] == "tags":
            u = pick(o[3])
            if not u:
                continue
            argv = ["tags", *(["--autoremove"] if o[4] else []), "-r", u, o[1], ",".join(o[2])]
            rc, out, err = cli(path, *argv)
            check(rc == 0, f"{what}: {argv} fails")
            old = set(model[u]["tags"])
            new = set(o[2]) if o[1] == "set" else old | set(o[2]) if o[1] == "add" else old - set(o[2])
            model[u]["tags"] = sorted(new)
            if not new and o[4]:
                del model[u]
                order.remove(u)
        elif o[0] == "rm":
            u = pick(o[1])
            if not u:
                continue
            rc, out, err = cli(path, "rm", "-r", u)
            check(rc == 0, f"{what}: rm fails")
            del model[u]
            order.remove(u)
            labels.add("rm")
        elif o[0] == "expire":
            rc, out, err = cli(path, "gc", "--expire", "--local")
            check(rc == 0, f"{what}: fails")
            pending = [u for u, m in model.items() if m is None]
            if pending:
                # expiry sees the tags of interrupted backups, too
                revs = meta.on_disk(path)
                now = {u: m for u, m in model.items() if m}
                # conservative: nothing may disappear that the rule keeps on its own
                want = rule(now, SCHED, CLOCK.t)
                for u in want:
                    if model[u] and not model[u]["server"]:
                        check(u in revs, f"{what}: revision {u} disappeared")
                for u in list(model):
                    if u not in revs:
                        del model[u]
                        if u in order:
                            order.remove(u)
                    elif model[u]:
                        model[u] = revs[u]
            else:
                want = rule(model, SCHED, CLOCK.t)
                for u in set(model) - set(want):
                    order.remove(u)
                model = want
            labels.add("expire")
        elif o[0] == "gc":
            before = tree(path)
            rc, out, err = cli(path, "gc")
            check(rc == 0, f"{what}: gc fails")
            if order:
                labels.add("gc")
        elif o[0] == "verify":
            u = pick(o[1])
            if not u:
                continue
            before = {k: v for k, v in tree(path).items() if k.startswith(u)}
            rc, out, err = cli(path, "verify", "-r", u)
            after = {k: v for k, v in tree(path).items() if k.startswith(u)}
            check(rc == 0, f"{what}: verify of a stored revision fails")
            check(read_rev_files(path)[u]["trust"] in ("verified", model[u]["trust"]), f"{what}: trust changes to {read_rev_files(path)[u]['trust']}")
            check(before.get(u) == after.get(u), f"{what}: verify altered the data")
            model[u]["trust"] = read_rev_files(path)[u]["trust"]
        elif o[0] == "distrust":
            u = pick(o[1])
            if not u:
                continue
            rc, out, err = cli(path, "distrust", "-r", u)
            check(rc == 0, f"{what}: distrust fails")
            model[u]["trust"] = "distrusted"
        elif o[0] == "restore":
            u = pick(o[1])
            if not u:
                continue
            target = os.path.join(d, "target")
            if o[2]:
                with open(target, "wb") as f:
                    f.write(pattern(*o[2]))
            rc, out, err = cli(path, "restore", "-r", u, "file", target)
            check(rc == 0, f"{what}: restore fails with {rc}: {err}")
            with open(target, "rb") as f:
                same(f"{what}: restored revision", f.read(), contents[u])
            os.unlink(target)
        got = meta.on_disk(path)
        # interrupted ones may be cleaned up by any later backup
        for u in [u for u, m in model.items() if m is None]:
            if u not in got:
                del model[u]
        check(set(got) == set(model), f"{what}: revisions are {sorted(got)}, expected {sorted(model)}")
        for u, m in model.items():
            if m:
                check(got[u] == m, f"{what}: revision {u} is {got[u]}, expected {m}")
        with open(src, "rb") as f:
            same(f"{what}: source file", f.read(), data["cur"])
    for u in order:
        target = os.path.join(d, "target")
        rc, out, err = cli(path, "restore", "-r", u, "file", target)
        check(rc == 0, f"finally: restore of {u} fails: {err}")
        with open(target, "rb") as f:
            same(f"finally: restored revision {u}", f.read(), contents[u])
    return Info("gc" in labels or ("backup" in labels and len(order) > 1), labels)


CAMPAIGNS = [
    Campaign("history", case, run_case, "garbage collection with revisions, or several backups", batch=20),
]

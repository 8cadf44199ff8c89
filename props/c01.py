"""C01 Every existing image backup restores byte for byte."""
import datetime
import os
import random

from hypothesis import strategies as st

from lib import gen, hist
from lib.core import Campaign, Info, Violation, check, pattern, same
from lib.world import (C4, Ceph, captured_fd1, fast_environment, install_clock, quiet_main, rbd_backup, rbd_source, read_all, read_rev_files, repo,
                       restore_bytes, restore_clock, restore_file)

PROP = "C01"
TECHNIQUE = "stateful property-based testing (Hypothesis) of backup histories against a byte-array model, fake rbd cluster"
LEVEL = "exploration"
NOTE = "random histories of up to ~15 operations on images up to 5 chunks of 4 MiB (two fixed cases with 25+ chunks); rbd replaced by a stand-in"
ASSUMPTIONS = [
    "rbd is a stand-in executable: snapshots are exact copies; export/export-diff streams are well formed, in ascending order and complete",
    "backy-extract (external Rust tool) is replaced by a stand-in in the campaign \"extract\" and absent elsewhere",
]


def worker_init(env):
    fast_environment()
    quiet_main()


guest = st.one_of(
    st.tuples(st.just("w"), gen.offset(3), gen.length, gen.kinds, gen.seeds),
    st.tuples(st.just("w"), gen.offset(3), gen.length, gen.kinds, gen.seeds),
    st.tuples(st.just("z"), gen.offset(3), gen.length),
    st.tuples(st.just("size"), gen.image_size(3)),
)
op = st.one_of(
    st.tuples(st.just("w"), gen.offset(), gen.length, gen.kinds, gen.seeds),
    st.tuples(st.just("w"), gen.offset(), gen.length, gen.kinds, gen.seeds),
    st.tuples(st.just("z"), gen.offset(), gen.length),
    st.tuples(st.just("size"), gen.image_size()),
    st.tuples(st.just("b"), gen.policy),
    st.tuples(st.just("b"), gen.policy),
    st.tuples(st.just("bfull")),
    st.tuples(st.just("delsnap")),
    st.tuples(st.just("clock"), st.sampled_from([-100000, -3600, -2, 0, 1, 86400, 400000])),
    st.tuples(st.just("rm"), st.integers(0, 9), st.booleans()),
    st.tuples(st.just("r"), st.integers(0, 9), st.sampled_from(["new", "longer", "shorter", "same", "garbage", "stdout", "file", "link"])),
)
case = st.fixed_dictionaries({
    "size": gen.image_size(3),
    "init": st.tuples(gen.kinds, gen.seeds),
    "flush": st.sampled_from([1, 2, 10, 10]),
    "ops": st.tuples(st.lists(guest, max_size=2), st.just([["b", None]]), st.lists(guest, min_size=1, max_size=3), st.lists(op, max_size=9)).map(
        lambda t: [list(o) for part in t for o in part]),
    "seed": st.integers(0, 1000),
})


def clamp_write(size, off, n):
    off = min(off, size)
    return off, min(n, size - off)


def run_case(case, env):
    from backy.rbd.chunked import File
    d = env.dir()
    path = os.path.join(d, "vm")
    random.seed(case["seed"])
    ceph = Ceph(os.path.join(d, "ceph"))
    ceph.use()
    size = gen.off(case["size"])
    img = ceph.image("rbd", "img", pattern(case["init"][0], case["init"][1], size))
    saved = File.flush_target
    clock = install_clock()
    clock.tick = datetime.timedelta(seconds=1)
    File.flush_target = case["flush"]
    model = []  # [uuid, bytes]
    labels = set()
    changed_between = 0
    restores = 0
    try:
        ops = [list(o) for o in case["ops"]] + [["b", None]]
        for o in ops:
            k = o[0]
            if k == "w":
                off, n = clamp_write(img.size, gen.off(o[1]), o[2])
                if n:
                    img.write(off, pattern(o[3], o[4], n))
                    changed_between += 1
            elif k == "z":
                off, n = clamp_write(img.size, gen.off(o[1]), o[2])
                if n:
                    img.write(off, bytes(n))
                    changed_between += 1
            elif k == "size":
                new = gen.off(o[1])
                labels.add("grow" if new > img.size else "shrink" if new < img.size else "samesize")
                img.resize(new)
                changed_between += 1
            elif k in ("b", "bfull"):
                if k == "b" and o[1]:
                    p = dict(o[1])
                    if img.size // p["gran"] > 20000:
                        p["gran"] = 4096
                    if p["maxw"] and img.size // p["maxw"] > 3000:
                        p["maxw"] = 65536
                    ceph.set(**p)
                ceph.reset_log()
                content = img.content
                ok, uuid = rbd_backup(path, always_full=(k == "bfull"))
                check(ok is True, f"backup of a healthy source reports {ok!r}")
                revs = read_rev_files(path)
                check(uuid in revs and "duration" in revs[uuid]["stats"], "successful backup is not recorded as complete")
                labels.add("diff" if any(c[0] == "export-diff" for c in ceph.log()) else "full")
                model.append((uuid, content))
            elif k == "clock":
                clock.advance(o[1])
                labels.add("clock-back" if o[1] < 0 else "clock")
            elif k == "delsnap":
                for s in img.snaps():
                    img.snap_rm(s)
            elif k == "rm":
                if model:
                    uuid, _ = model.pop(o[1] % len(model))
                    r = repo(path)
                    r.rm([r.find_by_uuid(uuid)])
                    if o[2]:
                        rbd_source(repo(path)).gc()
                    labels.add("rm")
            elif k == "r":
                if model:
                    uuid, want = model[o[1] % len(model)]
                    restores += 1
                    labels.add("restore-" + o[2])
                    restore_to(o[2], path, d, uuid, want)
        for uuid, want in model:
            same(f"restore of revision {uuid}", restore_bytes(path, uuid, d), want)
        check(set(read_rev_files(path)) == {u for u, _ in model}, "the set of revisions differs from the backups made and kept")
    finally:
        File.flush_target = saved
        restore_clock()
    contents = {c for _, c in model}
    nontrivial = len(contents) >= 2 and "diff" in labels and any(any(c) for c in contents)
    return Info(nontrivial, labels)


def restore_to(kind, path, d, uuid, want):
    t = os.path.join(d, "target")
    if os.path.lexists(t):
        os.unlink(t)
    if kind == "stdout":
        from backy.rbd import RBDRestoreArgs, RestoreBackend
        with captured_fd1() as box:
            r = repo(path)
            rbd_source(r).restore(r.find_by_uuid(uuid), RBDRestoreArgs("-", RestoreBackend.PYTHON))
        same(f"restore of {uuid} to stdout", box.read(), want)
        return
    if kind == "file":
        same(f"content of {uuid} through the file interface", read_all(path, uuid), want)
        return
    n = len(want)
    if kind == "link":
        os.symlink(os.path.join(d, "target2"), t)
        with open(os.path.join(d, "target2"), "wb") as f:
            f.write(b"x" * 1000)
    elif kind != "new":
        old = {"longer": pattern(2, 77, n + C4 // 2 + 3), "shorter": pattern(2, 78, n // 2), "same": want,
               "garbage": pattern(1, 79, n)}[kind]
        with open(t, "wb") as f:
            f.write(old)
    restore_file(path, uuid, t)
    with open(t, "rb") as f:
        same(f"restore of {uuid} over target kind {kind}", f.read(), want)
    if kind == "link":
        os.unlink(os.path.join(d, "target2"))


def big_cases():
    # more chunks than the default cache, sparse and dense
    return [
        {"size": [27, 512], "init": [0, 0], "flush": 10, "seed": 1, "ops": [
            ["w", [0, 5], C4 * 2, 2, 1], ["b", None], ["w", [26, -3], 100000, 2, 2], ["w", [3, 0], C4, 1, 3], ["b", None],
            ["size", [22, 100]], ["w", [21, -10], 4000, 3, 1], ["b", None], ["r", 0, "new"]]},
        {"size": [25, 0], "init": [3, 1], "flush": 10, "seed": 2, "ops": [
            ["b", None], ["w", [24, -3], 100000, 2, 2], ["z", [2, 9], C4 * 19], ["b", None], ["size", [26, 1]], ["b", None], ["r", 1, "stdout"]]},
    ]


# ------------------------------------------------- the external restore tool

xcase = st.fixed_dictionaries({
    "img": st.fixed_dictionaries({"size": st.tuples(st.integers(0, 3), st.sampled_from([0, 0, 0, 0, 512, -512])),
                                  "init": st.tuples(gen.kinds, gen.seeds)}),
    "steps": st.lists(st.lists(hist.guest, min_size=1, max_size=2), min_size=0, max_size=2),
    "restores": st.lists(st.tuples(
        st.integers(0, 3),
        st.sampled_from(["ok", "ok", "ok", "fail-early", "fail-late", "killed", "version-error", "version-other", "absent"]),
        st.sampled_from(["auto", "auto", "auto", "rust", "python"]),
        st.sampled_from(["new", "longer", "garbage", "stdout"]),
        st.sampled_from(["api", "main", "relative"])), min_size=1, max_size=4),
})


def run_extract(case, env):
    from backy.rbd import RBDRestoreArgs, RBDSource, RestoreBackend
    from lib.extract import Extract
    d = env.dir()
    w = hist.World(d, case["img"])
    for s in [[]] + list(case["steps"]):
        for o in s:
            if o[0] == "size":
                o = ["size", [o[1][0], 0 if o[1][1] % 3 else o[1][1]]]
            w.guest(o)
        w.backup()
    w.write_config()
    labels = set()
    used = False
    cwd = os.getcwd()
    with Extract(d) as tool:
        for i, mode, backend, kind, how in case["restores"]:
            u = w.order[i % len(w.order)]
            want = w.model[u]
            aligned = len(want) % C4 == 0
            tool.mode(mode)
            t = os.path.join(d, "target")
            if os.path.lexists(t):
                os.unlink(t)
            if kind == "longer":
                with open(t, "wb") as f:
                    f.write(pattern(2, 77, len(want) + C4 // 2 + 3))
            elif kind == "garbage":
                with open(t, "wb") as f:
                    f.write(pattern(1, 79, len(want)))
            before = len([c for c in tool.calls() if c != "--version"])
            error = status = None
            try:
                with captured_fd1() as box:
                    if how == "api":
                        r = repo(w.path)
                        rbd_source(r).restore(r.find_by_uuid(u), RBDRestoreArgs("-" if kind == "stdout" else t, RestoreBackend(backend)))
                    else:
                        if how == "relative":
                            os.chdir(d)
                        status = RBDSource.main("backy-rbd", "-C", "vm" if how == "relative" else w.path, "restore",
                                                "--backend", backend, u, "-" if kind == "stdout" else "target" if how == "relative" else t)
            except Exception as e:
                error = e
            finally:
                os.chdir(cwd)
                tool.mode("ok")
            used = used or len([c for c in tool.calls() if c != "--version"]) > before
            ok = error is None and not status
            what = f"restore of {u} ({len(want)} bytes) with backend {backend}, backy-extract {mode}, {how}, target {kind}"
            if ok:
                if kind == "stdout":
                    got = box.read()
                else:
                    with open(t, "rb") as f:
                        got = f.read()
                same(what, got, want)
            usable = mode in ("ok", "version-error", "version-other") and aligned
            if backend == "python" or mode == "ok" and aligned or backend == "auto" and (not aligned or mode.startswith("version") or mode == "absent"):
                check(ok, f"{what} failed: {error!r} {getattr(error, 'filename', None)}, exit status {status}")
            if backend == "rust" and not usable:
                check(not ok, f"{what} reports success")
            labels.add(f"{backend}-{mode}-{'ok' if ok else 'failed'}")
        w.check_restores("later restore")
    return Info(used, labels)


CAMPAIGNS = [
    Campaign("history", case, run_case,
             "history of guest writes/discards/resizes, backups under varying diff layouts, removals and restores; non-trivial: at least two "
             "different non-zero contents among the kept revisions and at least one incremental backup",
             batch=12, fixed=big_cases),
    Campaign("extract", xcase, run_extract,
             "restores with the external tool working, failing, dying, unknown or missing; non-trivial: the tool was started on a revision",
             weight=0.3, batch=8),
]

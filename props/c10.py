"""C10 Killing any operation at any instant loses nothing."""
import datetime
import os
import shutil
import signal
import subprocess

from hypothesis import strategies as st

from lib import gen, hist
from lib.core import Campaign, HarnessError, Info, Skip, Violation, check, same
from lib.fsmon import Counter, Monitor, fork_run
from lib.world import (C4, UTC, chunk_files, fast_environment, install_clock, mapping_of, quiet_main, rbd_backup, rbd_source,
                       read_rev_files, repo, restore_bytes, restore_clock)

PROP = "C10"
TECHNIQUE = ("crash-point fuzzing: generated repositories and operations, the process is killed (SIGKILL) before any chosen file system "
             "effect, in the middle of a write, or at a source command; then recovery is compared with the byte model")
LEVEL = "exploration"
QUICK = 60
NOTE = ("1-3 revisions of images up to ~9 MiB; kill points are numbered over every create/write/truncate/rename/unlink/chmod/mkdir/fsync below "
        "the repository (interposed C library calls) and every rbd command; up to 3 operations killed in a row")
ASSUMPTIONS = ["a killed process leaves what it has already handed to the kernel (power loss is C11)",
               "half-made revisions may leave unreferenced files behind until the next garbage collection"]


def worker_init(env):
    fast_environment()
    quiet_main()


frac = st.one_of(st.integers(0, 999), st.sampled_from([0, 990, 999]))
kill = st.one_of(
    st.tuples(st.just("fs"), frac), st.tuples(st.just("fs"), frac), st.tuples(st.just("fs"), frac),
    st.tuples(st.just("rbd"), frac, st.sampled_from(["killparent", "killparentafter"])),
    st.just(["none"]),
)
sel = st.lists(st.integers(0, 3), min_size=1, max_size=3)
op = st.one_of(
    st.tuples(st.just("backup"), st.lists(hist.guest, max_size=2), st.sampled_from([["daily"], ["weekly", "daily"], ["manual:a"]])),
    st.tuples(st.just("backup"), st.lists(hist.guest, max_size=2), st.sampled_from([["daily"], ["weekly", "daily"], ["manual:a"]])),
    st.tuples(st.just("verify"), st.integers(0, 3)),
    st.tuples(st.just("expire"), st.integers(0, 30)),
    st.tuples(st.just("rm"), sel),
    st.tuples(st.just("tags"), st.sampled_from(["set", "add", "remove"]), st.sampled_from([["daily"], ["weekly"], ["daily", "weekly"], ["manual:b"]]), st.booleans()),
    st.tuples(st.just("distrust"), sel),
    st.tuples(st.just("gc")),
)
case = st.fixed_dictionaries({
    "img": hist.image,
    "steps": st.lists(st.tuples(st.lists(hist.guest, max_size=2), st.sampled_from([["daily"], ["weekly"], ["daily", "weekly"]])), min_size=1, max_size=3),
    "prep": st.lists(st.one_of(st.tuples(st.just("distrust"), st.integers(0, 2)), st.tuples(st.just("foreign"), st.integers(0, 3)),
                               st.tuples(st.just("rm"), st.integers(0, 2)), st.tuples(st.just("verify"), st.integers(0, 2))), max_size=2),
    "ops": st.lists(st.tuples(op, kill), min_size=1, max_size=3),
    "last": st.lists(hist.guest, max_size=1),
    "policy": st.sampled_from([{}, {"gran": 4096}, {"gran": C4}, {"maxw": 70000}]),
})


def perform(o, path, order, t):
    """the operation as its own process would do it"""
    k = o[0]
    if k == "backup":
        return rbd_backup(path, o[2])[0]
    r = repo(path)
    own = [x.uuid for x in r.history if not x.server]

    def pick(ix):
        return [r.find_by_uuid(u) for u in sorted({own[i % len(own)] for i in ix})] if own else []
    if k == "verify":
        own = [u for u in own if "duration" in r.find_by_uuid(u).stats]
        v = pick([o[1]])
        if v:
            rbd_source(r).verify(v[0])
    elif k == "expire":
        r.expire()
    elif k == "rm":
        r.rm(pick(o[1]))
    elif k == "tags":
        r.tags(o[1], "all", set(o[2]), autoremove=o[3])
    elif k == "distrust":
        r.distrust(pick(o[1]))
    elif k == "gc":
        rbd_source(r).gc()


def run_case(case, env):
    w = hist.World(env.dir(), case["img"])
    clock = install_clock()
    clock.tick = datetime.timedelta(seconds=1)
    try:
        return go(case, w, clock, env)
    finally:
        restore_clock()


def copy_tree(a, b):
    subprocess.run(["cp", "-a", a, b], check=True)


def go(case, w, clock, env):
    labels = set()
    for ops, tags in case["steps"]:
        for o in ops:
            w.guest(o)
        clock.advance(86400)
        w.backup(tags=tags)
    for k, i in case["prep"]:
        r = repo(w.path)
        own = [x for x in r.history if not x.server]
        if k == "foreign":
            w.foreign(i)
        elif own and k == "distrust":
            r.distrust([own[i % len(own)]])
        elif len(own) > 1 and k == "rm":
            u = own[i % len(own)].uuid
            r.rm([own[i % len(own)]])
            w.order.remove(u)
            w.model.pop(u)
        elif own and k == "verify":
            rbd_source(r).verify(own[i % len(own)])
    w.ceph.set(**case["policy"])
    killed = 0
    save = w.d + ".save"
    env.dirs.append(save)
    for o, kl in case["ops"]:
        clock.advance(o[1] * 86400 if o[0] == "expire" else 3600)
        if o[0] == "backup":
            for g in o[1]:
                w.guest(g)
        content = w.img.content
        before = w.revs()
        t = clock.t
        # undisturbed run on a copy: what the operation means to do, and how many kill points it has
        shutil.rmtree(save, ignore_errors=True)
        copy_tree(w.d, save)
        w.ceph.reset_log()
        cnt = Counter()

        def dry():
            with Monitor(w.path, cnt):
                perform(o, w.path, w.order, t)
            return cnt.n
        res = fork_run(dry)
        if res[0] != "ok":
            raise Violation(f"undisturbed {o[0]} failed: {res[1]}")
        n = res[1]
        ncmd = len(w.ceph.log())
        after = w.revs()
        shutil.rmtree(w.d)
        os.rename(save, w.d)
        # the killed run
        w.ceph.reset_log()
        at = None
        if kl[0] == "fs" and n:
            at = kl[1] * n // 1000
        elif kl[0] == "rbd":
            if not ncmd:
                continue
            w.ceph.set_faults([f"fault {kl[1] * ncmd // 1000} {kl[2]} 0"])
        c = Counter(at=at)

        def wet():
            with Monitor(w.path, c):
                perform(o, w.path, w.order, t)
        res = fork_run(wet)
        w.ceph.set_faults([])
        what = f"{o[0]} killed at {kl[0]} {at if kl[0] == 'fs' else kl[1:]} of {n}"
        if res[0] == "exc":
            raise Violation(f"{what}: failed: {res[1]}")
        if res == ("killed", signal.SIGALRM):
            raise Violation(f"{what}: does not end")
        if res[0] == "killed":
            killed += 1
            labels.add("killed-" + o[0])
        # metadata is readable, and old or new
        try:
            now = w.revs()
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"{what}: metadata cannot be read any more: {type(e).__name__}: {e}")
        repo(w.path)
        for u, old in before.items():
            new = after.get(u)
            if u not in now:
                check(new is None, f"{what}: revision {u} is gone although the operation does not delete it")
                w.model.pop(u, None)
                continue
            check(now[u] in (old, new), lambda: f"{what}: metadata of {u} is neither as before nor as after: {now[u]} before {old} after {new}")
        for u in set(now) - set(before):
            check(o[0] == "backup", f"{what}: a revision {u} appeared")
            if "duration" in now[u]["stats"]:
                w.model[u] = content
        w.order = [u for u in w.order if u in w.model] + [u for u in w.model if u not in w.order]
        w.check_restores(what)
    # recovery: the normal next run
    for g in case["last"]:
        w.guest(g)
    clock.advance(3600)
    comp = set(w.complete()) & set(w.model)
    if case["ops"] and killed:
        labels.add("recovered")
    ok, u = w.backup()
    left = {x for x, r in w.revs().items() if "duration" not in r["stats"] and not r["server"]}
    check(not left, f"incomplete revisions are left after the next run: {left}")
    check(set(w.model) <= set(w.complete()), "complete revisions got lost in the next run")
    rbd_source(repo(w.path)).gc()
    w.check_restores("after recovery")
    want = set()
    for x, r in w.revs().items():
        if not r["server"]:
            want.update(mapping_of(w.path, x)[0].values())
    got = set(chunk_files(w.path))
    check(got == want, f"after recovery and garbage collection {len(got - want)} unreferenced and {len(want - got)} missing chunks")
    return Info(killed > 0, labels)


CAMPAIGNS = [
    Campaign("kill", case, run_case, "at least one operation was actually killed", batch=12),
]

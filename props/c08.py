"""C08 Source failures never produce a false backup."""
import datetime
import os
import subprocess

from hypothesis import strategies as st

from lib import gen, hist
from lib.core import Campaign, HarnessError, Info, Skip, Violation, check, same
from lib.fsmon import Counter, Monitor, fork_run
from lib.world import (C4, fast_environment, install_clock, log, quiet_main, repo, restore_bytes, restore_clock)

PROP = "C08"
TECHNIQUE = ("fault-injection fuzzing: every source command of a backup can fail, die, deliver nothing, garbage or truncated output, and "
             "repository writes can fail, in random sequences of backups compared with the byte model")
LEVEL = "exploration"
NOTE = "1-4 backups per case with up to 2 faults each, cut-off points anywhere in the output, images up to ~13 MiB; wrong data is covered where the comparison looks at it"
ASSUMPTIONS = ["a source command that claims success but silently delivered wrong data of the right length can only be noticed where the sampled comparison looks",
               "writes that fail return an error (not silently lost)"]


def worker_init(env):
    fast_environment()
    quiet_main()


CMDS = ["info", "snap-create", "snap-ls", "snap-rm", "export", "export", "export-diff", "export-diff", "map", "showmapped", "unmap", "--version"]
mode = st.one_of(
    st.tuples(st.just("exit"), st.sampled_from([1, 2, 5, 22, 30, 110])),
    st.tuples(st.just("exitafter"), st.sampled_from([1, 2, 5, 22])),
    st.tuples(st.just("killnow"), st.just(0)),
    st.tuples(st.just("empty"), st.just(0)),
    st.tuples(st.just("garbage"), st.just(0)),
    st.tuples(st.sampled_from(["trunc", "trunc", "kill"]), st.one_of(st.integers(0, 100), st.integers(0, 9 << 20), st.sampled_from([C4, 2 * C4, C4 - 1, C4 + 1, 12]))),
    st.tuples(st.sampled_from(["trunc", "trunc", "kill"]), st.one_of(st.integers(0, 100), st.integers(0, 9 << 20), st.sampled_from([C4, 2 * C4, C4 - 1, C4 + 1, 12]))),
)
fault = st.one_of(
    st.tuples(st.just("cmd"), st.sampled_from(CMDS), st.sampled_from([0, 0, 0, 1, 2, -1]), mode),
    st.tuples(st.just("cmd"), st.sampled_from(CMDS), st.sampled_from([0, 0, 0, 1, 2, -1]), mode),
    st.tuples(st.just("n"), st.integers(0, 14), mode),
    st.tuples(st.just("io"), st.integers(0, 80), st.sampled_from([5, 13, 27]), st.booleans()),
    st.tuples(st.just("wrong"), st.integers(0, C4 - 1), st.integers(1, 255), st.integers(1, 3000)),
)
img = st.fixed_dictionaries({"size": st.one_of(gen.image_size(3), gen.image_size(2), st.tuples(st.just(0), st.integers(0, 5000))), "init": st.tuples(gen.kinds, gen.seeds)})
step = st.tuples(st.lists(hist.guest, max_size=3), st.lists(fault, max_size=2))
case = st.fixed_dictionaries({
    "img": img,
    "steps": st.lists(step, min_size=1, max_size=4),
    "policy": gen.policy,
    "full": st.sampled_from([False, False, False, True]),
    "last": st.lists(hist.guest, max_size=2),
    "clean": st.booleans(),
})


def run_case(case, env):
    from backy.rbd import RBDSource
    from backy.revision import Revision
    w = hist.World(env.dir(), case["img"])
    clock = install_clock()
    clock.tick = datetime.timedelta(seconds=1)
    try:
        return go(case, w, clock)
    finally:
        restore_clock()


def attempt(w, io=None, clean=True):
    """clean up, create the revision, run the source process' main; -> exit status"""
    from backy.rbd import RBDSource
    from backy.revision import Revision
    r = repo(w.path)
    if clean:
        r._clean()
    rev = Revision.create(r, {"daily"}, log)
    rev.materialize()

    def main():
        return RBDSource.main("backy-rbd", "-t", "TASK", "-C", w.path, "backup", rev.uuid)
    fired = 0
    if io:
        def child():
            c = Counter(at=io[0], action="fail", errno=io[1], persist=io[2])
            with Monitor(w.path, c):
                code = main()
            return code, c.n
        res = fork_run(child)
        if res[0] != "ok":
            raise Violation(f"backup process ended with {res} when a write failed")
        code, n = res[1]
        fired = n > io[0]
    else:
        code = main()
    r = repo(w.path)
    return code, rev.uuid, fired


def go(case, w, clock):
    labels = set()
    fired = 0
    w.ceph.set(**case["policy"])
    os.makedirs(w.path)
    w.write_config({"type": "rbd", "pool": "rbd", "image": "img", "full-always": case["full"]})
    for i, (guest, faults) in enumerate(case["steps"] + [[case["last"], []]]):
        last = i == len(case["steps"])
        for o in guest:
            w.guest(o)
        clock.advance(3600)
        content = w.img.content
        before = set(w.complete())
        lines, io, wrong = [], None, False
        w.ceph.set(mutate=None)
        for f in faults:
            if f[0] == "cmd":
                lines.append(f"faultcmd {f[1]} {f[2]} {f[3][0]} {f[3][1]}")
            elif f[0] == "n":
                lines.append(f"fault {f[1]} {f[2][0]} {f[2][1]}")
            elif f[0] == "io":
                io = f[1:]
            elif 0 < w.img.size <= C4:
                # the mapped image differs from what was transferred; with a single block the comparison looks at all of it
                off = f[1] % w.img.size
                w.ceph.set(mutate=f"{off} {f[2]} {min(f[3], w.img.size - off)} -1")
                wrong = True
        w.ceph.set_faults(lines)
        w.ceph.reset_log()
        code, uuid, hit = attempt(w, io, case["clean"] or last)
        w.ceph.set_faults([])
        if lines or hit or wrong:
            fired += 1
        what = f"backup {i} with faults {faults}"
        comp = w.complete()
        check(before <= set(comp), f"{what}: existing complete revisions disappeared")
        if code == 0:
            check(uuid in comp, f"{what}: success is reported but there is no complete revision")
            check(not wrong, f"{what}: a difference to the source was not noticed")
            labels.add("success" + ("-despite-fault" if faults else ""))
        else:
            labels.add("failed")
            check(code in (1, 2), f"{what}: exit status {code!r}")
        check(set(comp) <= before | {uuid}, f"{what}: unexpected complete revisions")
        if uuid in comp:
            check(not wrong, f"{what}: revision differing from the source counts as complete")
            w.model[uuid] = content
            w.order.append(uuid)
        w.check_restores(what)
        if last:
            check(code == 0, "the backup after the faults fails although the source works again")
            left = [u for u, r in w.revs().items() if "duration" not in r["stats"]]
            check(not left, f"incomplete revisions stay behind: {left}")
    return Info(fired > 0 and "failed" in labels, labels)


def trunc_cases():
    """cut-off points of full backups and diffs, deterministic sweep"""
    out = []
    for size in ([1, 0], [2, 0], [3, 512], [0, 4096]):
        for cut in (0, 1, 4096, C4 - 1, C4, C4 + 1, 2 * C4, 2 * C4 + 4096, 3 * C4):
            out.append({"img": {"size": size, "init": [2, 1]}, "policy": {}, "full": False, "last": [], "clean": True,
                        "steps": [[[], [["cmd", "export", 0, ["trunc", cut]]]], [[["w", [0, 100], 3 * C4, 2, 2]], [["cmd", "export-diff", 0, ["trunc", cut]]]]]})
    return out


CAMPAIGNS = [
    Campaign("faults", case, run_case, "a fault was injected and a backup reported failure", batch=20, fixed=trunc_cases),
]

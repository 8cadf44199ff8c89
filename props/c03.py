"""C03 Damaged stored data is never served as good data."""
import os

from hypothesis import strategies as st

from lib import gen, hist
from lib.core import Campaign, Info, Skip, Violation, check, pattern, same, short
from lib.world import (C4, captured_fd1, chunk_content, chunk_files, fast_environment, quiet_main, rbd_source, repo)

PROP = "C03"
TECHNIQUE = "fault-injecting property-based testing: random damage to stored chunk files, then reads, restores and backups against the byte model"
LEVEL = "exploration"
NOTE = "random damage (flip, truncate, extend, swap, delete, re-encode, empty, zero) to 1-3 chunks of small histories; only chunk files are damaged, not the mapping or metadata"
ASSUMPTIONS = ["damage never produces a 128 bit MurmurHash3 collision", "backy-extract is absent; the Python restore is used"]


def worker_init(env):
    fast_environment()
    quiet_main()


base = {
    "img": hist.image,
    "steps": st.lists(st.lists(hist.guest, max_size=2), min_size=1, max_size=3),
    "damage": st.lists(hist.damage, min_size=1, max_size=3),
}
rcase = st.fixed_dictionaries({
    **base,
    "reads": st.lists(st.tuples(gen.offset(2), gen.length), min_size=1, max_size=6),
    "how": st.sampled_from(["file", "file", "stdout", "main", "over"]),
})


def build(case, env):
    w = hist.World(env.dir(), case["img"])
    for s in case["steps"]:
        for o in s:
            w.guest(o)
        w.backup()
    return w


def run_reads(case, env):
    w = build(case, env)
    bad = {hist.apply_damage(w.path, x) for x in case["damage"]} - {None}
    if not bad:
        raise Skip()
    labels = {x[1] for x in case["damage"]}
    refused = served = 0
    from backy.rbd import RBDRestoreArgs, RBDSource, RestoreBackend
    for u, want in w.model.items():
        mapping, size = w.chunks_of(u)
        hit = {i for i, h in mapping.items() if h in bad}
        r = repo(w.path)
        with rbd_source(r).open(r.find_by_uuid(u)) as f:
            for o, n in case["reads"]:
                t = gen.off(o, size)
                try:
                    f.seek(t)
                    got = f.read(n)
                except Exception:
                    refused += 1
                    check(any(i in hit for i in range(t // C4, min(t + n, size) // C4 + 1)),
                          f"reading undamaged data of {u} at {t}+{n} failed")
                    break
                served += 1
                same(f"read of {u} at {t}+{n} with damaged chunks {sorted(hit)}", got, want[t:t + n])
        target = os.path.join(w.d, "out")
        if os.path.exists(target):
            os.unlink(target)
        if case["how"] == "over":
            with open(target, "wb") as fh:
                fh.write(want[::-1])
        status = None
        try:
            r = repo(w.path)
            if case["how"] == "stdout":
                with captured_fd1() as box:
                    rbd_source(r).restore(r.find_by_uuid(u), RBDRestoreArgs("-", RestoreBackend.PYTHON))
                got = box.read()
            elif case["how"] == "main":
                w.write_config()
                status = RBDSource.main("backy-rbd", "-C", w.path, "restore", u, target)
                got = open(target, "rb").read() if os.path.exists(target) else b""
                if status:
                    refused += 1
                    check(hit, f"restore of the undamaged revision {u} failed with exit status {status}")
                    continue
            else:
                rbd_source(r).restore(r.find_by_uuid(u), RBDRestoreArgs(target, RestoreBackend.PYTHON))
                with open(target, "rb") as fh:
                    got = fh.read()
        except Exception as e:
            if isinstance(e, Violation):
                raise
            refused += 1
            check(hit, f"restore of the undamaged revision {u} failed: {e!r}")
            continue
        served += 1
        same(f"restore ({case['how']}) of {u} with damaged chunks {sorted(hit)}", got, want)
    return Info(refused > 0, labels | ({"some-served"} if served else set()))


bcase = st.fixed_dictionaries({
    **base,
    "more": st.lists(hist.guest, max_size=2),
    "policy": st.sampled_from([{}, {"gran": 512}, {"gran": C4}, {"redundant": 300, "gran": 65536}, {"zmode": 0}]),
    "main": st.booleans(),
    "full": st.sampled_from([False, False, True]),  # the snapshots are lost, so everything is transferred again
})


def run_backup(case, env):
    w = build(case, env)
    verified = None
    if len(case["damage"]) > 1 and len(w.order) > 1:
        # one revision that was found good before the damage happened
        r = repo(w.path)
        rbd_source(r).verify(r.find_by_uuid(w.order[0]))
    bad = {hist.apply_damage(w.path, x) for x in case["damage"]} - {None}
    if not bad:
        raise Skip()
    before = dict(w.model)
    parent_map, psize = w.chunks_of(w.order[-1])
    old = w.model[w.order[-1]]
    w.ceph.set(**case["policy"])
    for o in case["more"]:
        w.guest(o)
    new = w.img.content
    if case["full"]:
        for n in w.img.snaps():
            w.img.snap_rm(n)
    # chunks that can only be produced by reading the parent's damaged data: part of it changed, part did not
    must = set()
    g = case["policy"].get("gran", 65536)
    if not case["policy"].get("redundant") and not case["full"]:
        for i, h in parent_map.items():
            a, b = old[i * C4:(i + 1) * C4], new[i * C4:(i + 1) * C4]
            if h in bad and len(a) == len(b) and a != b:
                blocks = [a[k:k + g] == b[k:k + g] for k in range(0, len(a), g)]
                if any(blocks) and not all(blocks):
                    must.add(i)
    error = None
    try:
        ok, uuid = w.backup(must=False)
    except Exception as e:
        ok, uuid, error = False, None, e
    labels = {x[1] for x in case["damage"]} | {"ok" if ok else "failed"}
    revs = w.complete()
    if ok:
        check(not must, f"a backup that has to read damaged chunks {sorted(must)} of its parent reports success")
        if len(new) < 2 * C4 and new:
            # verification compares this block with the source, so it was read
            r = repo(w.path)
            with rbd_source(r).open(r.find_by_uuid(uuid)) as f:
                try:
                    got = f.read(C4)
                except Exception as e:
                    raise Violation(f"a backup whose verified block is damaged reports success ({e!r})")
                same("verified block of a successful backup", got, new[:C4])
    else:
        check(error is None, lambda: f"a backup meeting damaged data ended with {error!r}")
        check(set(revs) <= set(before), "a failed backup left a revision that counts as complete")
        check(set(w.revs()) <= set(before), "a failed backup left a new revision")
        trusted = [u for u, r in revs.items() if r["trust"] == "trusted" and not r["server"]]
        check(not trusted, f"after a backup met damaged data revisions {trusted} are still trusted")
        good = hist.intact(w.path)
        for u, r in revs.items():
            if r["trust"] == "verified" and not r["server"]:
                lost = [i for i, h in w.chunks_of(u)[0].items() if not good.get(h)]
                check(not lost, f"after a backup met damaged data revision {u} still counts as verified although its chunks {lost} are damaged")
    # whatever happened: exact or an error
    refused = 0
    for u, want in w.model.items():
        if u not in revs:
            continue
        try:
            r = repo(w.path)
            with rbd_source(r).open(r.find_by_uuid(u)) as f:
                got = f.read()
        except Exception:
            refused += 1
            continue
        same(f"revision {u} after the backup", got, want)
    if must:
        labels.add("must-fail")
    return Info(not ok or refused > 0, labels)


# the command itself, as a separate process
def fixed_cli():
    return [{"mode": m, "how": h} for m in ("flip", "delete", "valid", "trunc") for h in ("file", "stdout")]


def run_cli(case, env):
    import subprocess
    w = hist.World(env.dir(), {"size": [1, 5000], "init": [2, 3]})
    w.backup()
    w.write_config()
    u = w.order[0]
    want = w.model[u]
    for damaged in (False, True):
        if damaged:
            hist.apply_damage(w.path, [1, case["mode"], 777])
        t = os.path.join(w.d, "target")
        arg = t if case["how"] == "file" else "-"
        p = subprocess.run(["backy", "-C", w.path, "restore", "-r", u, "rbd", arg], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=w.d, timeout=60)
        if case["how"] == "file":
            got = open(t, "rb").read() if os.path.exists(t) else b""
        else:
            got = p.stdout
        if damaged:
            check(p.returncode != 0, f"restore of damaged data ({case}) exits with 0")
        else:
            check(p.returncode == 0, f"restore of good data exits with {p.returncode}: {p.stderr[-300:]}")
            same("restored by the command", got, want)
    return Info(True, [case["mode"]])


CAMPAIGNS = [
    Campaign("reads", rcase, run_reads, "at least one read or restore met damaged data", batch=15),
    Campaign("backup", bcase, run_backup, "the backup failed or left a revision that cannot be read", batch=12),
    Campaign("cli", None, run_cli, "real restore command on good and damaged data", fixed=fixed_cli),
]

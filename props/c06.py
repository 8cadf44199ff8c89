"""C06 Distrust makes backups heal the repository."""
import os

from hypothesis import strategies as st

from lib import gen, hist
from lib.core import Campaign, Info, Skip, Violation, check, same
from lib.world import C4, chunk_files, fast_environment, quiet_main, rbd_source, repo, restore_bytes

PROP = "C06"
TECHNIQUE = "stateful property-based testing with injected damage: distrust, damage stored data, back up, compare with the byte model"
LEVEL = "exploration"
NOTE = "histories of 1-4 revisions, any subset distrusted, any or all stored chunks damaged, then repeated backups until nothing is distrusted"
ASSUMPTIONS = ["damage hits chunk files only", "the rbd stand-in provides correct data"]


def worker_init(env):
    fast_environment()
    quiet_main()


case = st.fixed_dictionaries({
    "img": hist.image,
    "steps": st.lists(st.lists(hist.guest, max_size=2), min_size=1, max_size=4),
    "distrust": st.one_of(st.just("all"), st.just("all"), st.lists(st.integers(0, 3), min_size=1, max_size=3)),
    "snaps": st.sampled_from(["all", "all", "newest", "none"]),
    "verify": st.lists(st.integers(0, 3), max_size=1),
    "damage": st.one_of(st.just("all"), st.just("all"), st.lists(hist.damage, min_size=1, max_size=4), st.just([])),
    "mode": st.sampled_from(["flip", "trunc", "valid", "zero", "delete"]),
    "foreign": st.sampled_from([None, None, "distrusted", "trusted"]),
    "incomplete": st.booleans(),
    "more": st.lists(st.lists(hist.guest, max_size=2), min_size=1, max_size=3),
    "policy": st.sampled_from([{}, {"gran": 512}, {"gran": C4}, {"redundant": 1000, "gran": C4}, {"redundant": 1000, "gran": C4}]),
})


def run_case(case, env):
    w = hist.World(env.dir(), case["img"])
    saved = {}
    for s in case["steps"]:
        for o in s:
            w.guest(o)
        content = w.img.content
        w.backup()
        saved[w.order[-1]] = content
    # snapshots may still exist for any revision
    for u, content in saved.items():
        name = f"backy-{u}"
        if case["snaps"] == "all" and name not in w.img.snaps():
            (w.img.dir / "snap" / name).write_bytes(content)
        if case["snaps"] == "none" and name in w.img.snaps():
            w.img.snap_rm(name)
    if case["foreign"]:
        w.foreign(1, trust=case["foreign"])
    for i in case["verify"]:
        r = repo(w.path)
        rbd_source(r).verify(r.find_by_uuid(w.order[i % len(w.order)]))
    r = repo(w.path)
    sel = w.order if case["distrust"] == "all" else sorted({w.order[i % len(w.order)] for i in case["distrust"]})
    r.distrust([r.find_by_uuid(u) for u in sel])
    alldis = len(sel) == len(w.order)
    # damage
    damaged = set()
    if case["damage"] == "all":
        for i in range(len(chunk_files(w.path))):
            files = sorted(set(chunk_files(w.path)) - damaged)
            if not files:
                break
            h = hist.apply_damage(w.path, [0, case["mode"], i * 7 + 1], files)
            damaged.add(h or files[0])
    else:
        for x in case["damage"]:
            damaged.add(hist.apply_damage(w.path, x))
    damaged.discard(None)
    labels = {"damage-all" if case["damage"] == "all" else "damage-some", "all-distrusted" if alldis else "some-distrusted"}
    w.ceph.set(**case["policy"])
    healed = 0
    if case["incomplete"]:
        # an interrupted backup attempt that is itself distrusted does not keep the repository in that state for ever
        from lib.world import new_revision
        r = repo(w.path)
        rev = new_revision(r)
        if case["damage"] == []:
            r.distrust([rev])
    rounds = case["more"] + [[]] * (len(w.order) + len(case["more"]) + 2)
    for n, s in enumerate(rounds):
        for o in s:
            w.guest(o)
        before = w.complete()
        dis = {u for u, r in before.items() if r["trust"] == "distrusted" and not r["server"]}
        if not dis and n >= len(case["more"]):
            break
        ids = {h: os.stat(p).st_ino for h, p in chunk_files(w.path).items()}
        w.ceph.reset_log()
        prior = dict(w.model)
        try:
            ok, u = w.backup(must=False)
        except Exception as e:
            raise Violation(f"backup while revisions are distrusted ended with {e!r}")
        what = f"backup {n} with {len(dis)} distrusted revisions"
        after = w.complete()
        diff = [c[1] for c in w.ceph.log() if c[0] == "export-diff"]
        parent = None
        if diff:
            parent = diff[0].split("--from-snap backy-")[1].split()[0]
            check(before.get(parent, {}).get("trust") != "distrusted", f"{what} builds on the distrusted revision {parent}")
            labels.add("diff")
        if not parent:
            check(ok, f"{what}: a full backup of a healthy source fails")
        for x in list(w.model):
            if x not in after:
                w.model.pop(x)
                if x in w.order:
                    w.order.remove(x)
        if not ok:
            labels.add("failed")
            continue
        if dis:
            check(u in after, f"{what}: the new revision is not on record")
            good = hist.intact(w.path)
            mapping, size = w.chunks_of(u)
            if not parent:
                bad = [h for h in mapping.values() if not good.get(h)]
                check(not bad, f"{what}: {len(bad)} of {len(mapping)} chunks of the new revision are damaged")
                same(f"{what}: new revision", restore_bytes(w.path, u, w.d), w.model[u])
                stale = [h for h in mapping.values() if h in ids and os.stat(chunk_files(w.path)[h]).st_ino == ids[h]]
                check(not stale, f"{what}: stored data was reused instead of written anew")
                healed += bool(damaged & set(mapping.values()))
            else:
                # pieces that were transferred completely are written anew
                old = prior.get(parent)
                g = case["policy"].get("gran", 65536)
                for i, h in mapping.items():
                    a, b = old[i * C4:(i + 1) * C4], w.model[u][i * C4:(i + 1) * C4]
                    if b and b != a[:len(b)]:
                        check(good.get(h), f"{what}: chunk {i}, which was transferred, is damaged in the store")
                    if case["policy"].get("redundant") and len(b) == C4:
                        # the difference contains everything
                        check(good.get(h), f"{what}: chunk {i}, which was transferred unchanged, is damaged in the store")
                        check(h not in ids or os.stat(chunk_files(w.path)[h]).st_ino != ids[h], f"{what}: stored data of chunk {i} was reused instead of written anew")
                        labels.add("unchanged data transferred")
            now = {x for x, r in after.items() if r["trust"] == "distrusted" and not r["server"]}
            check(now < dis, f"{what}: no distrusted revision was verified ({len(dis)} before, {len(now)} after)")
            labels.add("progress")
    revs = w.complete()
    left = [u for u, r in revs.items() if r["trust"] == "distrusted" and not r["server"]]
    check(not left, f"repeated backups leave {len(left)} revisions distrusted")
    if case["foreign"]:
        check(revs.get("foreign1", {}).get("trust") == case["foreign"], "trust of a foreign revision changed")
    return Info(healed > 0 or (bool(damaged) and "progress" in labels), labels | ({"healed"} if healed else set()))


CAMPAIGNS = [
    Campaign("heal", case, run_case,
             "stored chunks were damaged and a backup succeeded while revisions were distrusted (label healed: it rewrote a damaged chunk)", batch=15),
]

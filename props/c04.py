"""C04 Verification verdicts are sound and complete."""
import os

from hypothesis import strategies as st

from lib import gen, hist
from lib.fsmon import Monitor
from lib.core import Campaign, Info, Skip, Violation, check, same
from lib.world import C4, chunk_files, fast_environment, quiet_main, rbd_source, repo, restore_bytes

PROP = "C04"
TECHNIQUE = "stateful property-based testing: verify/distrust/damage histories against an independent reading of the chunk files"
LEVEL = "exploration"
NOTE = "histories of up to ~12 operations over up to 4 own revisions plus foreign metadata; damage to chunk files only"
ASSUMPTIONS = ["the on-disk formats (mapping JSON, chunk file names and LZO+MurmurHash3 content) are as documented",
               "a revision already recorded as verified is not checked again (its pieces count as covered)"]


def worker_init(env):
    fast_environment()
    quiet_main()


op = st.one_of(
    st.tuples(st.just("verify"), st.integers(0, 5), st.booleans()),
    st.tuples(st.just("verify"), st.integers(0, 5), st.booleans()),
    st.tuples(st.just("verify"), st.integers(0, 5), st.booleans()),
    st.tuples(st.just("damage"), hist.damage),
    st.tuples(st.just("damage"), hist.damage),
    st.tuples(st.just("damage"), hist.damage),
    st.tuples(st.just("damage"), hist.damage),
    st.tuples(st.just("distrust"), st.lists(st.integers(0, 5), min_size=1, max_size=3)),
    st.tuples(st.just("distrustall"), st.sampled_from(["local", "all", "last", "first", "not(last(local))&local"])),
    st.tuples(st.just("foreign"), st.sampled_from(["trusted", "distrusted", "verified"])),
    st.tuples(st.just("heal")),
    st.tuples(st.just("rm"), st.integers(0, 5)),
)
case = st.fixed_dictionaries({
    "img": hist.image,
    "steps": st.lists(st.lists(hist.guest, max_size=2), min_size=1, max_size=4),
    "ops": st.lists(op, min_size=3, max_size=12),
})


def run_case(case, env):
    w = hist.World(env.dir(), case["img"])
    for s in case["steps"]:
        for o in s:
            w.guest(o)
        w.backup()
    labels = set()
    verdicts = 0
    foreign = []

    def restorable():
        good = hist.intact(w.path)
        return {u for u in w.model if all(good.get(h) for h in w.chunks_of(u)[0].values())}

    for o in case["ops"]:
        k = o[0]
        before = w.revs()
        fine = restorable()
        if k == "verify":
            if not w.order:
                break
            u = w.order[o[1] % len(w.order)]
            good = hist.intact(w.path)
            own = [x for x, r in before.items() if not r["server"] and "duration" in r["stats"]]
            covered = set()
            for x in own:
                if before[x]["trust"] == "verified":
                    covered.update(w.chunks_of(x)[0].values())
            mine = set(w.chunks_of(u)[0].values())
            bad = {h for h in mine if not good.get(h)}
            hard = bad - covered
            if o[2]:
                from backy.rbd import RBDSource
                w.write_config()
                rc = RBDSource.main("backy-rbd", "-C", w.path, "verify", u)
                check(rc == 0 or hard, f"verify of an intact revision exits with {rc}")
            else:
                r = repo(w.path)
                rbd_source(r).verify(r.find_by_uuid(u))
            after = w.revs()
            what = f"verify of {u} ({len(mine)} chunks, {len(bad)} damaged, {len(hard)} of them not covered by a verified revision)"
            if not bad:
                check(u in after and after[u]["trust"] == "verified", f"{what}: intact revision is not recorded as verified")
            elif hard:
                check(u not in after, f"{what}: revision is still there ({after.get(u, {}).get('trust')})")
                now = hist.intact(w.path)
                gone = {h for h in hard if h not in now or now[h]}
                check(gone, f"{what}: the damaged pieces are still in the store")
                labels.add("removed")
            else:
                labels.add("covered")
            for x in before:
                if x == u:
                    continue
                check(x in after, f"{what}: another revision {x} was removed")
                check(after[x] == before[x], f"{what}: metadata of another revision {x} changed")
            if u in after:
                for key in before[u]:
                    check(key == "trust" or after[u][key] == before[u][key], f"{what}: {key} of the revision changed")
            else:
                w.model.pop(u)
                w.order.remove(u)
            check(set(after) <= set(before), f"{what}: new revisions {set(after) - set(before)}")
            verdicts += 1
            labels.add("intact" if not bad else "damaged")
        elif k == "damage":
            h = hist.apply_damage(w.path, o[1])
            if h:
                labels.add(o[1][1])
            continue
        elif k in ("distrust", "distrustall"):
            r = repo(w.path)
            allrevs = w.order + foreign
            if k == "distrust":
                if not allrevs:
                    continue
                sel = sorted({allrevs[i % len(allrevs)] for i in o[1]})
                revs = [r.find_by_uuid(u) for u in sel]
            else:
                try:
                    revs = r.find_revisions(o[1])
                except (KeyError, IndexError):
                    continue
                sel = [x.uuid for x in revs]
            own = [u for u in sel if u not in foreign]
            try:
                r.distrust(revs)
                failed = False
            except Exception:
                failed = True
            after = w.revs()
            if failed:
                check(len(own) < len(sel), f"distrusting own revisions {own} failed")
                check(after == before, "a refused distrust changed something")
                labels.add("distrust-refused")
            for x in before:
                want = dict(before[x])
                if not failed and x in own:
                    want["trust"] = "distrusted"
                check(after.get(x) == want, f"distrust of {sel}: metadata of {x} is {after.get(x)} instead of {want}")
            labels.add("distrust")
        elif k == "foreign":
            foreign.append(w.foreign(len(foreign), trust=o[1]))
            continue
        elif k == "heal":
            # what was taken out of the store is written again by a later backup
            try:
                ok, u = w.backup(must=False)
            except Exception as e:
                raise Violation(f"backup ended with {e!r}")
            after = w.revs()
            for x in list(w.order):
                if x not in after:
                    w.order.remove(x)
                    w.model.pop(x)
            labels.add("backup")
        elif k == "rm":
            if w.order:
                u = w.order.pop(o[1] % len(w.order))
                w.model.pop(u)
                r = repo(w.path)
                r.rm([r.find_by_uuid(u)])
        for u in fine & set(w.model):
            same(f"after {o}: intact revision {u}", restore_bytes(w.path, u, w.d), w.model[u])
    return Info(verdicts and ("damaged" in labels or verdicts > 1), labels)


hcase = st.fixed_dictionaries({
    "img": hist.image,
    "steps": st.lists(st.lists(hist.guest, max_size=2), min_size=0, max_size=2),
    "damage": st.lists(hist.damage, min_size=1, max_size=2),
})


def run_heal(case, env):
    """verify everything until nothing is removed; then the next backup is exact although data was lost"""
    w = hist.World(env.dir(), case["img"])
    w.backup()
    for s in case["steps"]:
        for o in s:
            w.guest(o)
        w.backup()
    bad = {hist.apply_damage(w.path, x) for x in case["damage"]} - {None}
    if not bad:
        raise Skip()
    for i in range(3 * len(w.order) + 3):
        todo = [u for u, r in w.revs().items() if r["trust"] != "verified"]
        if not todo:
            break
        r = repo(w.path)
        rbd_source(r).verify(r.find_by_uuid(todo[i % len(todo)]))
    left = w.revs()
    check(all(r["trust"] == "verified" for r in left.values()), "verification does not come to an end")
    good = hist.intact(w.path)
    check(all(good.values()), f"damaged pieces {[h for h, g in good.items() if not g]} stay in the store after everything was verified")
    w.model = {u: c for u, c in w.model.items() if u in left}
    removed = len(w.order) - len(w.model)
    w.check_restores("after verifying everything")
    w.backup()
    w.check_restores("after the next backup")
    return Info(removed > 0, [x[1] for x in case["damage"]])


edit = st.one_of(
    st.tuples(st.just("rm"), st.integers(0, 5)),
    st.tuples(st.just("add"), st.integers(0, 5), st.sampled_from(["manual:x", "weekly"])),
    st.tuples(st.just("set"), st.integers(0, 5), st.sampled_from(["manual:x", "weekly"])),
    st.tuples(st.just("distrust"), st.integers(0, 5)),
    st.tuples(st.just("foreign"), st.sampled_from(["trusted", "distrusted", "verified"])),
)
mcase = st.fixed_dictionaries({
    "img": hist.image,
    "steps": st.lists(st.lists(hist.guest, min_size=1, max_size=2), min_size=2, max_size=4),
    "verified": st.sets(st.integers(0, 3), max_size=2).map(sorted),
    "damage": st.one_of(st.none(), hist.damage),
    "which": st.integers(0, 5), "at": st.sampled_from([-1, -1, 0, 0, 0, 1, 2, 3]),
    "edits": st.lists(edit, min_size=1, max_size=3), "process": st.booleans(),
})


def run_meanwhile(case, env):
    """while a revision is verified, another process edits, removes or distrusts revisions"""
    w = hist.World(env.dir(), case["img"])
    for s in case["steps"]:
        for o in s:
            w.guest(o)
        w.backup()
    for i in case["verified"]:
        if i < len(w.order):
            r = repo(w.path)
            rbd_source(r).verify(r.find_by_uuid(w.order[i]))
    if case["damage"]:
        hist.apply_damage(w.path, case["damage"])
    before = w.revs()
    u = w.order[case["which"] % len(w.order)]
    good = hist.intact(w.path)
    covered = set()
    for x, rec in before.items():
        if rec["trust"] == "verified":
            covered.update(w.chunks_of(x)[0].values())
    bad = {h for h in w.chunks_of(u)[0].values() if not good.get(h)}
    hard = bad - covered
    want = {x: dict(rec) for x, rec in before.items()}
    seen, loose = [0], set()

    def edits():
        for e in case["edits"]:
            r = repo(w.path)
            if e[0] == "foreign":
                f = w.foreign(len(want), trust=e[1])
                want[f] = w.revs()[f]
                continue
            x = w.order[e[1] % len(w.order)]
            if x not in want or x not in w.revs():
                continue
            if e[0] == "rm":
                r.rm([r.find_by_uuid(x)])
                del want[x]
            elif e[0] == "distrust":
                r.distrust([r.find_by_uuid(x)])
                want[x]["trust"] = "distrusted"
                if x == u:
                    loose.add("trust")
            else:
                r.tags(e[0], x, {e[2]})
                want[x]["tags"] = sorted({e[2]} | (set(want[x]["tags"]) if e[0] == "add" else set()))

    def event(kind, phase, a, b, size):
        # any piece or list of pieces that is read
        if kind == "ropen" and phase == 0 and (a.endswith(".chunk.lzo") or os.path.basename(a) in before):
            if seen[0] == case["at"]:
                seen.append(1)
                edits()
            seen[0] += 1
        return 0

    from backy.rbd import RBDSource
    with Monitor(w.path, event, extra=True):
        if case["process"] and case["at"] >= 0:
            w.write_config()
            RBDSource.main("backy-rbd", "-C", w.path, "verify", u)
        else:
            r = repo(w.path)
            src, rev = rbd_source(r), r.find_by_uuid(u)
            if case["at"] < 0:
                edits()
                seen.append(1)
            src.verify(rev)
    if len(seen) == 1:
        raise Skip()
    after = w.revs()
    what = f"verify of {u} while another process did {case['edits']}"
    for x in set(want) - {u}:
        check(x in after, f"{what}: another revision {x} was removed")
        check(norm(after[x]) == norm(want[x]), f"{what}: {x} is {after[x]} instead of {want[x]}")
    check(set(after) <= set(want), f"{what}: revisions {set(after) - set(want)} came back")
    if u in want:
        if hard:
            check(u not in after, f"{what}: damaged revision is still there")
        elif not bad:
            check(u in after, f"{what}: intact revision was removed")
            want[u]["trust"] = "verified" if "trust" not in loose else after[u]["trust"]
            check(norm(after[u]) == norm(want[u]), f"{what}: the revision is {after[u]} instead of {want[u]}")
    good = hist.intact(w.path)
    for x in set(after) & set(w.model):
        if all(good.get(h) for h in w.chunks_of(x)[0].values()):
            same(f"{what}: intact revision {x}", restore_bytes(w.path, x, w.d), w.model[x])
        else:
            check(bad or case["damage"], f"{what}: data of {x} is gone")
    return Info(True, [e[0] for e in case["edits"]] + (["damaged"] if hard else []) + (["own"] if u not in want else []))


def norm(rec):
    # (the parent is informative)
    return {**{k: v for k, v in rec.items() if k != "parent"}, "tags": sorted(rec["tags"]), "orig_tags": sorted(rec["orig_tags"])}


CAMPAIGNS = [
    Campaign("meanwhile", mcase, run_meanwhile, "other processes' edits during the verification took place", batch=12, weight=0.5),
    Campaign("verdicts", case, run_case, "at least one verification of damaged data or two verifications", batch=15),
    Campaign("heal", hcase, run_heal, "at least one revision was found damaged and removed", batch=12, weight=0.5),
]

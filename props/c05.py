"""C05 Garbage collection removes exactly the unreferenced data."""
import datetime
import os

from hypothesis import strategies as st

from lib import gen, hist
from lib.core import Campaign, Info, Skip, Violation, check, same
from lib.world import (C4, UTC, chunk_files, fast_environment, install_clock, mapping_of, quiet_main, rbd_source, real_sleep,
                       repo, restore_clock, tree)

PROP = "C05"
TECHNIQUE = "stateful property-based testing: random histories ending in garbage collection by fresh and stale views against a reference set computed from the mapping files"
LEVEL = "exploration"
NOTE = "histories of up to ~14 operations, up to 6 revisions, several simultaneously open repository views"
ASSUMPTIONS = ["mapping files of removed revisions stay behind by design, only chunks are collected",
               "a revision in progress by another process holds the locks (see C12)"]


def worker_init(env):
    fast_environment()
    quiet_main()


op = st.one_of(
    st.tuples(st.just("b"), st.lists(hist.guest, max_size=2), st.sampled_from([["daily"], ["weekly"], ["daily", "weekly"], ["manual:x"]])),
    st.tuples(st.just("b"), st.lists(hist.guest, max_size=2), st.sampled_from([["daily"], ["weekly"], ["daily", "weekly"], ["manual:x"]])),
    st.tuples(st.just("rm"), st.lists(st.integers(0, 6), min_size=1, max_size=2), st.booleans()),
    st.tuples(st.just("rm"), st.lists(st.integers(0, 6), min_size=1, max_size=2), st.booleans()),
    st.tuples(st.just("expire"), st.integers(0, 40)),
    st.tuples(st.just("tags"), st.integers(0, 6), st.sampled_from([["daily"], ["weekly"], ["daily", "weekly"]])),
    st.tuples(st.just("view")),
    st.tuples(st.just("view")),
    st.tuples(st.just("foreign")),
    st.tuples(st.just("incomplete"), st.sampled_from(["", "", "nomap", "cut", "empty"]), st.integers(1, 50)),
    st.tuples(st.just("gc"), st.integers(0, 3)),
    st.tuples(st.just("gc"), st.integers(0, 3)),
    st.tuples(st.just("pending")),
    st.tuples(st.just("broken"), st.integers(0, 6)),
    st.tuples(st.just("busy"), st.sampled_from([".purge", ".backup"])),
    st.tuples(st.just("verify"), st.integers(0, 6), st.integers(0, 3)),
)
case = st.fixed_dictionaries({
    "img": hist.image,
    "ops": st.lists(op, min_size=4, max_size=14),
    "last": st.integers(0, 3), "one": st.booleans(),
})


def run_case(case, env):
    w = hist.World(env.dir(), case["img"])
    clock = install_clock()
    clock.tick = datetime.timedelta(seconds=1)
    try:
        return history(case, w, clock)
    finally:
        restore_clock()


def expected(w):
    """chunks referenced by own revisions on record"""
    refs = set()
    for u, r in w.revs().items():
        if not r["server"]:
            try:
                refs.update(mapping_of(w.path, u)[0].values())
            except (FileNotFoundError, ValueError):
                if "duration" in r["stats"]:
                    raise
    return refs


def history(case, w, clock):
    views = [None]
    labels = set()
    # one long-lived source object makes all backups and collections, or each operation has its own
    one = rbd_source(repo(w.path)) if case.get("one") else None
    if one:
        labels.add("one-source")
    stats = {"deleted": 0, "gc": 0}
    extra = {}  # incomplete revisions: uuid -> mapping
    nforeign = 0
    pending = os.path.join(w.path, ".purge_pending")

    def sync_model():
        left = w.revs()
        for u in list(w.order):
            if u not in left:
                w.order.remove(u)
                w.model.pop(u)

    def gc(i, what):
        v = views[i % len(views)]
        before = chunk_files(w.path)
        want = expected(w)
        others = {k: v for k, v in tree(w.path).items() if not k.startswith("chunks/")}
        if one:
            one.gc()
        elif v is None or i % 2:
            if v is None:
                v = repo(w.path)
            rbd_source(v).gc()
        else:
            v[1].gc() if isinstance(v, tuple) else rbd_source(v).gc()
        if views[i % len(views)] is not None:
            labels.add("stale-view")
        after = chunk_files(w.path)
        lost = want & set(before) - set(after)
        check(not lost, f"{what}: garbage collection deleted chunks that are referenced: {sorted(lost)[:3]}")
        kept = set(after) - want
        check(not kept, f"{what}: garbage collection left unreferenced chunks: {sorted(kept)[:3]}")
        others.pop(".purge_pending", None)
        now = {k: v for k, v in tree(w.path).items() if not k.startswith("chunks/")}
        for k in others:
            check(now.get(k) == others[k], f"{what}: garbage collection changed {k}")
        check(not os.path.exists(pending), f"{what}: pending-purge mark is still set after a completed run")
        check(os.path.exists(os.path.join(w.path, "chunks", "store")), "format marker of the store was removed")
        stats["deleted"] += len(before) - len(after)
        stats["gc"] += 1

    w.backup(via=one)
    for o in [list(o) for o in case["ops"]] + [["gc", case["last"]], ["gc", 0]]:
        k = o[0]
        clock.advance(3600)
        if k == "b":
            for g in o[1]:
                w.guest(g)
            ok, u = w.backup(tags=o[2], via=one)
            # clean-up before a backup removes incomplete ones
            extra.clear()
        elif k == "rm":
            if not w.order:
                continue
            sel = {w.order[i % len(w.order)] for i in o[1]}
            r = repo(w.path)
            if o[2] and len(sel) == 1:
                r.tags("set", list(sel)[0], set(), autoremove=True)
            else:
                r.rm([r.find_by_uuid(u) for u in sel])
            labels.add("rm")
        elif k == "expire":
            clock.advance(o[1] * 86400)
            repo(w.path).expire()
        elif k == "tags":
            if w.order:
                repo(w.path).tags("remove", w.order[o[1] % len(w.order)], set(o[2]), autoremove=True)
        elif k == "view":
            r = repo(w.path)
            views.append(r if len(views) % 2 else (r, rbd_source(r)))
        elif k == "foreign":
            nforeign += 1
            w.foreign(nforeign)
        elif k == "incomplete":
            # killed before completion: metadata and mapping exist
            from lib.world import new_revision
            r = repo(w.path)
            parent = next((x for x in reversed(r.history) if not x.server and "duration" in x.stats), None)
            rev = new_revision(r)
            with rbd_source(r).open(rev, "wb", parent) as f:
                f.seek(100)
                f.write(b"incomplete%d" % len(extra))
            extra[rev.uuid] = 1
            # killed earlier
            p = os.path.join(w.path, rev.uuid)
            if o[1] == "nomap":
                os.unlink(p)
            elif o[1]:
                data = open(p).read()
                with open(p, "w") as f:
                    f.write(data[:len(data) * o[2] // 60] if o[1] == "cut" else "")
            labels.add("incomplete")
        elif k == "gc":
            gc(o[1], f"gc {o[1]}")
            labels.add("gc-again") if k == "gc" and o[1] == 0 else None
        elif k == "pending":
            repo(w.path).set_purge_pending()
            check(os.path.exists(pending), "pending-purge mark was not set")
        elif k == "verify":
            if w.order:
                v = views[o[2] % len(views)]
                u = w.order[o[1] % len(w.order)]
                r = repo(w.path) if v is None else v[0] if isinstance(v, tuple) else v
                try:
                    rev = r.find_by_uuid(u)
                except IndexError:
                    continue
                want = expected(w)
                before = chunk_files(w.path)
                if one:
                    one.repository.scan()
                    one.verify(one.repository.find_by_uuid(u))
                else:
                    rbd_source(r).verify(rev)
                lost = want & set(before) - set(chunk_files(w.path))
                check(not lost, f"verification deleted chunks that are referenced: {sorted(lost)[:3]}")
        elif k == "broken":
            # a run that cannot complete
            if not w.order:
                continue
            u = w.order[o[1] % len(w.order)]
            p = os.path.join(w.path, u)
            data = open(p).read()
            repo(w.path).set_purge_pending()
            before = chunk_files(w.path)
            want = expected(w)
            with open(p, "w") as f:
                f.write(data[:len(data) // 2])
            failed = False
            try:
                (one or rbd_source(repo(w.path))).gc()
            except Exception:
                failed = True
            finally:
                with open(p, "w") as f:
                    f.write(data)
            check(failed, "garbage collection succeeded although a revision's mapping cannot be read")
            lost = want & set(before) - set(chunk_files(w.path))
            check(not lost, "a failed garbage collection deleted chunks that are referenced")
            check(os.path.exists(pending), "a failed garbage collection cleared the pending-purge mark")
            labels.add("failed-gc")
        elif k == "busy":
            r = repo(w.path)
            r.set_purge_pending()
            before = chunk_files(w.path)
            with r.lock(o[1], "shared"):
                try:
                    (one or rbd_source(repo(w.path))).gc()
                    done = True
                except BlockingIOError:
                    done = False
            if o[1] == ".purge":
                check(not done, "garbage collection ran while the store was in use")
            if not done:
                check(set(chunk_files(w.path)) == set(before), "a refused garbage collection deleted chunks")
                check(os.path.exists(pending), "a refused garbage collection cleared the pending-purge mark")
        sync_model()
    b = chunk_files(w.path)
    w.check_restores("after garbage collection")
    return Info(stats["deleted"] > 0, labels)


CAMPAIGNS = [
    Campaign("gc", case, run_case, "garbage collection actually deleted chunks", batch=15),
]

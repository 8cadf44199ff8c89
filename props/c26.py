"""C26 Old repository layouts are migrated without loss."""
import os

import yaml
from hypothesis import strategies as st

from lib import gen, hist, meta
from lib.core import Campaign, Info, check
from lib.fsmon import Counter, Monitor, fork_run
from lib.meta import cli
from lib.world import (chunk_files, fast_environment, install_clock, mapping_of, quiet_main, rbd_source, read_all, read_rev_files, repo,
                       restore_clock, tree, tree_diff)

PROP = "C26"
TECHNIQUE = ("property-based testing: generated repositories are put into the old layout, opened with kills and errors at generated points, and "
             "compared with the model; metadata with generated subsets of fields")
LEVEL = "exploration"
NOTE = "up to 3 revisions with up to 4 chunks each and ~60 chunks in layout-only cases, mixtures of both layouts, stray files, up to 3 interruptions"
ASSUMPTIONS = ["chunks in the old layout are stored as chunks/<2 digits>/<2 digits>/<hash>.chunk.lzo without a `store` marker"]


def worker_init(env):
    fast_environment()
    quiet_main()


STRAY = ["{a}/{b}/tmp1x2y3z", "{a}/{b}/note.txt", "{a}/README", "{a}/{b}/{h}.chunk.lzo.tmp", "{a}/tmpabc", "README", "{a}/{b}/deep/file", "{a}/zz/x", "{a}/{b}"]
stray = st.tuples(st.integers(0, len(STRAY) - 1), st.integers(0, 255), st.integers(0, 255))
kill = st.tuples(st.one_of(st.integers(0, 30), st.integers(250, 300), st.integers(0, 700)), st.sampled_from(["kill", "kill", "fail"]), st.booleans())
img = st.fixed_dictionaries({"size": gen.image_size(2), "init": st.tuples(gen.kinds, gen.seeds)})
case = st.fixed_dictionaries({
    "img": img,
    "steps": st.lists(st.lists(hist.guest, max_size=2), max_size=2),
    "v2": st.lists(st.booleans(), max_size=8),  # which chunks are moved already
    "both": st.booleans(),
    "empty": st.lists(st.tuples(st.integers(0, 255), st.integers(0, 255)), max_size=4),
    "stray": st.one_of(st.just([]), st.lists(stray, max_size=3)),
    "kills": st.lists(kill, max_size=3),
    "drop": st.lists(st.sampled_from(["trust", "orig_tags", "server", "stats", "tags", "parent"]), max_size=4, unique=True),
    "links": st.booleans(),
    "fake": st.one_of(st.just(0), st.integers(1, 60)),
    "via": st.sampled_from(["backup", "restore", "gc", "verify", "open"]),
})


def to_old(path, case, names):
    """old layout from the new one"""
    c = os.path.join(path, "chunks")
    os.unlink(os.path.join(c, "store"))
    for i, h in enumerate(names):
        if case["v2"] and case["v2"][i % len(case["v2"])]:
            if not case["both"] or i % 2:
                continue
            # a copy in each place
            os.makedirs(os.path.join(c, h[:2], h[2:4]), exist_ok=True)
            os.link(os.path.join(c, h[:2], h + ".chunk.lzo"), os.path.join(c, h[:2], h[2:4], h + ".chunk.lzo"))
            continue
        os.makedirs(os.path.join(c, h[:2], h[2:4]), exist_ok=True)
        os.rename(os.path.join(c, h[:2], h + ".chunk.lzo"), os.path.join(c, h[:2], h[2:4], h + ".chunk.lzo"))
    for a, b in case["empty"]:
        os.makedirs(os.path.join(c, f"{a:02x}", f"{b:02x}"), exist_ok=True)
    out = {}
    for k, a, b in case["stray"]:
        h = names[a % len(names)] if names else "00" * 16
        a, b = (h[:2], h[2:4]) if b % 2 else (f"{a:02x}", f"{b:02x}")
        p = os.path.join(c, STRAY[k].format(a=a, b=b, h=h))
        try:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.lexists(p):
                continue
            with open(p, "w") as f:
                f.write(p)
        except OSError:
            continue
        out[p] = open(p).read()
    return out


def present(path):
    """names of the chunk files in either layout"""
    return {f for _, _, files in os.walk(os.path.join(path, "chunks")) for f in files if f.endswith(".chunk.lzo")}


def run_case(case, env):
    clock = install_clock()
    try:
        return go(case, env, clock)
    finally:
        restore_clock()


def go(case, env, clock):
    w = hist.World(env.dir(), case["img"])
    w.backup()
    for guest in case["steps"]:
        for o in guest:
            w.guest(o)
        clock.advance(3600)
        w.backup()
    w.write_config()
    path = w.path
    # many more files, not referenced by anything, as left by expired revisions
    for i in range(case["fake"]):
        h = f"{i * 37 % 256:02x}{i * 11 % 7:02x}" + "%028x" % i
        with open(os.path.join(path, "chunks", h[:2], h + ".chunk.lzo"), "wb") as f:
            f.write(h.encode())
    names = sorted(chunk_files(path))
    stray = to_old(path, case, names)
    old = names and not all(case["v2"] or [False])
    # metadata of an old version
    before = {}
    for u, r in read_rev_files(path).items():
        r = {k: v for k, v in r.items() if k not in case["drop"]}
        if "parent" not in case["drop"]:
            r["parent"] = ""
        if "stats" in case["drop"]:
            # completeness is recorded there
            r["stats"] = {"duration": 1.0}
        os.chmod(os.path.join(path, u + ".rev"), 0o640)
        meta.write_rev(path, r)
        before[u] = r
    last = w.order[-1]
    if case["links"]:
        os.symlink(last, os.path.join(path, "last"))
        os.symlink(last + ".rev", os.path.join(path, "last.rev"))
    data = {k: v for k, v in tree(path).items() if not k.startswith("chunks") and k not in ("last", "last.rev", ".backup", ".purge")}
    labels = set()

    def opened():
        rbd_source(repo(path))

    for i, (at, action, persist) in enumerate(case["kills"]):
        def child():
            c = Counter(at=at, action=action, errno=28, persist=persist)
            with Monitor(path, c):
                opened()
            return c.n > at
        res = fork_run(child)
        if res[0] == "killed" or res[0] == "exc":
            labels.add("interrupted")
        check(res[0] != "exc" or res[1][0] == "OSError", f"interruption {at} ({action}): {res}")
        have = present(path)
        check(have == {h + ".chunk.lzo" for h in names}, f"chunks are lost when interrupted at {at}: {sorted({h + '.chunk.lzo' for h in names} - have)[:3]}")
        for p, d in stray.items():
            check(os.path.exists(p) and open(p).read() == d, f"{p} is lost when interrupted at {at}")
    # normal start
    via = case["via"]
    if via == "open":
        opened()
    elif via == "restore":
        check(read_all(path, w.order[0]) == w.model[w.order[0]], "the first restore differs")
    elif via == "verify":
        r = repo(path)
        rbd_source(r).verify(r.find_by_uuid(w.order[0]))
        before.pop(w.order[0])
        data.pop(w.order[0] + ".rev")
    elif via == "gc":
        rbd_source(repo(path)).gc()
    elif via == "backup":
        w.guest(["w", [0, 0], 5000, 2, 3])
        clock.advance(3600)
        w.backup()
    what = f"after {via}"
    have = set(chunk_files(path))
    used = {h for u in w.model for h in mapping_of(path, u)[0].values()}
    check(used <= have, f"{what}: chunks {sorted(used - have)[:3]} are not where they belong")
    if via in ("open", "restore", "backup"):
        check(have >= set(names), f"{what}: chunks {sorted(set(names) - have)[:3]} are not where they belong")
    w.check_restores(what)
    now = tree(path)
    for k, v in data.items():
        check(now.get(k) == v, f"{what}: {k} changed: {v} -> {now.get(k)}")
    for p, d in stray.items():
        check(os.path.exists(p) and open(p).read() == d, f"{what}: {p} is lost")
    r = repo(path)
    for u, b in before.items():
        rev = r.find_by_uuid(u)
        got = (rev.trust.value, set(rev.tags), set(rev.orig_tags), rev.server, rev.timestamp, rev.stats)
        want = (b.get("trust", "trusted"), set(b.get("tags", [])), set(b.get("orig_tags", [])), b.get("server", ""), b["timestamp"], b["stats"])
        check(got == want, f"{what}: revision {u} with {sorted(b)} loads as {got}")
    # stable afterwards
    now = tree(path)
    opened()
    check(tree(path) == now, f"opening it again changes {tree_diff(now, tree(path))}")
    w.guest(["w", [0, 4096], 70000, 2, 5])
    clock.advance(3600)
    w.backup()
    rbd_source(repo(path)).gc()
    w.check_restores("after the next backup and garbage collection")
    check(set(chunk_files(path)) == {h for u in w.model for h in mapping_of(path, u)[0].values()}, "garbage collection after the migration is not exact")
    if stray:
        labels.add("stray")
    return Info(bool(old), labels | {via})


CAMPAIGNS = [Campaign("layout", case, run_case, "at least one chunk in the old place", batch=12)]

"""C13 Revision metadata and history survive storing and reloading."""
import datetime
import json
import os

from hypothesis import strategies as st

from lib import meta
from lib.core import Campaign, Info, check
from lib.world import UTC, fast_environment, log, quiet_main, repo, tree

PROP = "C13"
TECHNIQUE = "round-trip property testing of generated metadata (YAML and JSON form) and model-based checks of directory listings"
LEVEL = "exploration"
NOTE = "arbitrary Unicode tags/servers/statistics, directories of up to 8 revisions with links and unrelated files, up to 8 changes"
ASSUMPTIONS = ["strings contain no surrogate code points, statistics are flat and finite"]
BASE = datetime.datetime(2024, 3, 1, 12, 0, 0, tzinfo=UTC)


def worker_init(env):
    fast_environment()
    quiet_main()


anytext = st.one_of(
    st.sampled_from(["daily", "manual:x", "", " ", "1", "1.5", "null", "~", "yes", "no", "true", "2024-01-01", "a: b", "- a", "#x", "'", '"',
                     "\\", "\n", "\t", "\x00", "\x85", "\u2028", "\ufeff", "é", "日本", "😀", "[b]", "{}", "!!str", "&a", "*a", "%", "@", "`", "=", "<<",
                     "0x10", "1e3", "1_000", "12:30:45", "0o7", "a,b", "|", ">", "? a", "...", "---", " lead", "trail ", "a\nb", "a" * 200]),
    st.text(st.characters(blacklist_categories=("Cs",)), max_size=20),
)
ident = st.one_of(st.integers(0, 50).map(meta.uid), st.text("abcXYZ0123456789-_", min_size=1, max_size=22).filter(lambda s: s not in (".", "..")))
when = st.one_of(
    st.tuples(st.integers(-2 * 10 ** 9, 2 * 10 ** 9), st.sampled_from([0, 1, 10, 999999, 500000, 123456, 120000])),
    st.tuples(st.integers(-6 * 10 ** 10, 2 * 10 ** 11), st.integers(0, 999999)),
)
stat = st.one_of(st.integers(-2 ** 70, 2 ** 70), st.floats(allow_nan=False, allow_infinity=False), anytext, st.booleans(), st.none())
case = st.fixed_dictionaries({
    "uuid": ident,
    "when": when,
    "zone": st.booleans(),
    "tags": st.lists(anytext, max_size=4, unique=True),
    "orig": st.lists(anytext, max_size=3, unique=True),
    "server": st.one_of(st.just(""), anytext),
    "trust": st.sampled_from(["trusted", "distrusted", "verified"]),
    "stats": st.dictionaries(st.one_of(st.sampled_from(["duration", "bytes_written", "ceph-verification"]), anytext), stat, max_size=4),
    "overwrite": st.booleans(),
})


def fields(r):
    return {"uuid": r.uuid, "timestamp": r.timestamp, "tags": r.tags, "orig_tags": r.orig_tags, "server": r.server,
            "trust": r.trust.value, "stats": r.stats}


def run_round(case, env):
    from backy.revision import Revision, Trust
    from backy.utils import BackyJSONEncoder
    d = env.dir()
    r = repo(os.path.join(d, "vm"))
    epoch = datetime.datetime(1970, 1, 1, tzinfo=UTC if case["zone"] else datetime.timezone.utc)
    try:
        ts = epoch + datetime.timedelta(seconds=case["when"][0], microseconds=case["when"][1])
        if not 1 < ts.year < 9999:
            ts = epoch
    except OverflowError:
        ts = epoch
    rev = Revision(r, log, uuid=case["uuid"], timestamp=ts)
    if case["overwrite"]:
        rev.tags = {"x"}
        rev.materialize()
        rev.readonly()
    rev.tags = set(case["tags"])
    rev.orig_tags = set(case["orig"])
    rev.server = case["server"]
    rev.trust = Trust(case["trust"])
    rev.stats = dict(case["stats"])
    want = fields(rev)
    rev.write_info()
    check(fields(rev) == want, "storing a revision changes it")
    check([f for f in os.listdir(r.path) if f not in ("quarantine",)] == [rev.uuid + ".rev"], f"storing leaves {os.listdir(r.path)}")

    def agree(x, how):
        got = fields(x)
        for k in want:
            same_type = type(got[k]) is type(want[k])
            check(got[k] == want[k] and same_type, f"{how}: {k} is {got[k]!r} instead of {want[k]!r}")
        for k, v in want["stats"].items():
            check(type(got["stats"][k]) is type(v), f"{how}: statistics {k} is {got['stats'][k]!r} instead of {v!r}")
        check(got["timestamp"].utcoffset() == datetime.timedelta(0), f"{how}: time zone {got['timestamp'].tzinfo}")

    loaded = Revision.load(rev.info_filename, r, log)
    agree(loaded, "loaded from disk")
    r2 = repo(r.path)
    check(len(r2.history) == 1, f"history has {len(r2.history)} entries")
    agree(r2.history[0], "history")
    agree(r2.find_by_uuid(rev.uuid), "find_by_uuid")
    loaded.write_info()
    agree(Revision.load(rev.info_filename, r, log), "loaded after storing again")
    text = BackyJSONEncoder().encode(loaded.to_dict())
    agree(Revision.from_dict(json.loads(text), r, log), "through JSON")
    text = json.dumps(json.loads(json.dumps([loaded.to_dict()], cls=BackyJSONEncoder)))
    agree(Revision.from_dict(json.loads(text)[0], r, log), "through JSON list")
    odd = any(not t.isalnum() for t in case["tags"] + case["orig"] + [case["server"]])
    return Info(bool(case["tags"]), ["odd" if odd else "plain", "server" if case["server"] else "own"])


change = st.one_of(
    st.tuples(st.just("add"), meta.rev_strategy()),
    st.tuples(st.just("add"), meta.rev_strategy()),
    st.tuples(st.just("rm"), st.integers(0, 9)),
    st.tuples(st.just("unlink"), st.integers(0, 9)),
    st.tuples(st.just("edit"), st.integers(0, 9), st.lists(st.sampled_from(meta.TAGS), max_size=2, unique=True)),
    st.tuples(st.just("complete"), st.integers(0, 9)),
    st.tuples(st.just("link"), st.sampled_from(["last.rev", "last", "x.rev", "a.rev", "zz.rev"]), st.integers(0, 9)),
    st.tuples(st.just("junk"), st.sampled_from(["a.rev.bak", "tmpabcdef", "a.rev~", "config", ".backup", "x.report", "rev", "foo", "a.revx", "last"])),
    st.tuples(st.just("dir"), st.sampled_from(["chunks", "sub", "quarantine/chunks"])),
)
hcase = st.fixed_dictionaries({
    "revs": st.lists(meta.rev_strategy(), max_size=6),
    "same": st.sampled_from([0, 0, 1, 0.1, 0.000001]),
    "changes": st.lists(change, max_size=8),
    "rescan": st.booleans(),
})


def run_history(case, env):
    d = env.dir()
    path = os.path.join(d, "vm")
    revs = [dict(r, age=r["age"] % 5 * case["same"]) for r in case["revs"]] if case["same"] else case["revs"]
    model = {r["uuid"]: r for r in meta.build(path, revs, BASE, distinct=False)}
    n = len(revs)
    keep = repo(path)
    labels = set()

    def verify(r, what):
        h = r.history
        ids = [x.uuid for x in h]
        check(sorted(ids) == sorted(model), f"{what}: history lists {ids}, stored are {sorted(model)}")
        for a, b in zip(h, h[1:]):
            check(a.timestamp <= b.timestamp, f"{what}: history is not oldest first")
        for x in h:
            m = model[x.uuid]
            got = {"uuid": x.uuid, "timestamp": x.timestamp, "trust": x.trust.value, "server": x.server, "stats": x.stats,
                   "tags": sorted(x.tags), "orig_tags": sorted(x.orig_tags)}
            check(got == meta.canonical(m), f"{what}: {got} instead of {meta.canonical(m)}")
            check(r.find_by_uuid(x.uuid).uuid == x.uuid and r.find(x.uuid) is x, f"{what}: {x.uuid} is not found by its id")
        for clean in (False, True):
            for local in (False, True):
                want = [u for u in ids if (not clean or "duration" in model[u]["stats"]) and (not local or not model[u]["server"])]
                got = [x.uuid for x in r.get_history(clean=clean, local=local)]
                check(got == want, f"{what}: get_history(clean={clean}, local={local}) is {got} instead of {want}")
        check([x.uuid for x in r.clean_history] == [u for u in ids if "duration" in model[u]["stats"]], f"{what}: clean history")
        check([x.uuid for x in r.local_history] == [u for u in ids if not model[u]["server"]], f"{what}: local history")
        distrusted = any(m["trust"] == "distrusted" and not m["server"] and "duration" in m["stats"] for m in model.values())
        check(bool(r.contains_distrusted) == distrusted, f"{what}: contains_distrusted is {r.contains_distrusted}")

    verify(keep, "initially")
    for c in case["changes"]:
        k = c[0]
        ids = [x["uuid"] for x in sorted(model.values(), key=lambda x: (x["timestamp"], x["uuid"]))]
        u = ids[c[1] % len(ids)] if ids and k in ("rm", "unlink", "edit", "complete") else None
        if k == "add":
            m = meta.record(n, meta.utc(BASE, c[1]["age"] % 5 * case["same"] if case["same"] else c[1]["age"]), c[1]["tags"], c[1]["server"], c[1]["trust"], c[1]["complete"])
            n += 1
            meta.write_rev(path, m)
            model[m["uuid"]] = m
        elif u is None and k in ("rm", "unlink", "edit", "complete"):
            continue
        elif k == "rm":
            # through an object of this process: its view must stay consistent
            r = repo(path)
            r.find_by_uuid(u).remove()
            if model[u]["server"]:
                model[u]["tags"] = []
            else:
                del model[u]
            verify(r, "after remove")
        elif k == "unlink":
            os.unlink(os.path.join(path, u + ".rev"))
            del model[u]
        elif k == "edit":
            r = repo(path)
            x = r.find_by_uuid(u)
            x.tags = set(c[2])
            x.write_info()
            model[u]["tags"] = list(c[2])
            verify(r, "after edit")
        elif k == "complete":
            r = repo(path)
            x = r.find_by_uuid(u)
            x.stats["duration"] = 2.0
            x.write_info()
            x.readonly()
            model[u]["stats"]["duration"] = 2.0
        elif k == "link":
            p = os.path.join(path, c[1])
            if not os.path.lexists(p):
                os.symlink((ids[c[2] % len(ids)] + ".rev") if ids else "nowhere.rev", p)
                labels.add("link")
        elif k == "junk":
            p = os.path.join(path, c[1])
            if not os.path.lexists(p):
                with open(p, "w") as f:
                    f.write("uuid: [broken")
                labels.add("junk")
        elif k == "dir":
            os.makedirs(os.path.join(path, c[1]), exist_ok=True)
        before = tree(path)
        verify(repo(path), f"after {c}")
        if case["rescan"]:
            keep.scan()
            verify(keep, f"rescan after {c}")
        check(tree(path) == before, "looking at the history changes the repository")
    if len({m["timestamp"] for m in model.values()}) < len(model):
        labels.add("equal times")
    return Info(len(model) > 1 or labels, labels)


CAMPAIGNS = [
    Campaign("roundtrip", case, run_round, "at least one tag", batch=120),
    Campaign("history", hcase, run_history, "two or more revisions, or links/unrelated files present", batch=80),
]

"""C15 Tag edits are all-or-nothing and do exactly what was asked."""
import datetime
import os

from hypothesis import strategies as st

from lib import meta
from lib.core import Campaign, Info, Skip, check
from lib.world import UTC, fast_environment, quiet_main, repo, tree
from props.c14 import Bad, Ref, Unjudged

PROP = "C15"
TECHNIQUE = "model-based testing of generated tag edit sequences (library and command line)"
LEVEL = "exploration"
NOTE = "up to 6 revisions, up to 5 edits per history, selections from the specification grammar, stale and fresh repository objects"
ASSUMPTIONS = ["removing tags needs no validation (it cannot introduce unknown tags)"]
BASE = datetime.datetime(2024, 3, 1, 12, 0, 0, tzinfo=UTC)


def worker_init(env):
    fast_environment()
    quiet_main()


TAGS = ["daily", "weekly", "manual:a", "manual:b", "manual:", "old", "adhoc", "hourly"]
tagset = st.lists(st.sampled_from(TAGS[:4] * 2 + TAGS), min_size=1, max_size=3, unique=True)
edit = st.fixed_dictionaries({
    "action": st.sampled_from(["set", "add", "remove"]),
    "spec": st.sampled_from(["all", "all", "last", "first", "0", "1", "2", "local", "remote", "clean", "tag:daily", "tag:old", "tag:none", "0..1",
                             "not(last)", "9", "nope", "0,1", "tag:daily&local", "reverse(all)", "server:peer", "(", "trust:trusted",
                             "tag:manual:a", "first(tag:weekly)", "1..", "..1"]),
    "tags": tagset,
    # none | the tags of selected revision number i | explicit
    "expect": st.one_of(st.none(), st.none(), st.tuples(st.just("of"), st.integers(0, 5)), st.tuples(st.just("of"), st.integers(0, 5)),
                        st.tuples(st.just("is"), tagset)),
    "autoremove": st.booleans(),
    "force": st.sampled_from([False, False, True]),
    "via": st.sampled_from(["api", "api", "cli"]),
    "stale": st.booleans(),
})
case = st.fixed_dictionaries({
    "revs": st.lists(meta.rev_strategy(tags=TAGS, maxtags=2), min_size=1, max_size=6),
    "uniform": st.one_of(st.none(), st.none(), tagset),
    "edits": st.lists(edit, min_size=1, max_size=5),
})
SCHEDULE = {"daily": {"interval": "1d", "keep": 5}, "weekly": {"interval": "7d", "keep": 3}}


def run_case(case, env):
    d = env.dir()
    path = os.path.join(d, "vm")
    revs = case["revs"]
    if case["uniform"]:
        revs = [dict(r, tags=case["uniform"]) for r in revs]
    model = {m["uuid"]: meta.canonical(m) for m in meta.build(path, revs, BASE, SCHEDULE)}
    stale = repo(path, SCHEDULE)
    labels = set()
    for e in case["edits"]:
        hist = sorted(model.values(), key=lambda m: m["timestamp"])
        try:
            sel = [m["uuid"] for m in Ref(hist).parse(e["spec"])]
        except Bad:
            sel = None
        exp = e["expect"]
        if exp is None:
            expect = None
        elif exp[0] == "is":
            expect = set(exp[1])
        else:
            expect = set(model[sel[exp[1] % len(sel)]]["tags"]) if sel else {"daily"}
        tags = set(e["tags"])
        unknown = {t for t in tags if not t.startswith("manual:") and t not in SCHEDULE}
        why = None
        if sel is None:
            why = "bad selection"
        elif unknown and not e["force"] and e["action"] != "remove":
            why = f"unknown tags {unknown}"
        elif expect is not None and any(set(model[u]["tags"]) != expect for u in sel):
            why = f"expected {sorted(expect)}"
        want = {u: dict(m) for u, m in model.items()}
        if why is None:
            for u in sel:
                old = set(want[u]["tags"])
                new = tags if e["action"] == "set" else old | tags if e["action"] == "add" else old - tags
                want[u]["tags"] = sorted(new)
                if not new and e["autoremove"] and not want[u]["server"]:
                    del want[u]
                    labels.add("autoremoved")
        before = tree(path, skip=(".backup",))
        if e["via"] == "cli":
            if expect is not None and not expect:
                continue  # no way to say it
            argv = ["tags", *(["--autoremove"] if e["autoremove"] else []), *(["-f"] if e["force"] else []),
                    *(["--expect", ", ".join(sorted(expect))] if expect is not None else []), "-r", e["spec"], e["action"], ",".join(sorted(tags))]
            rc, out, err = meta.cli(path, *argv)
            ok = rc == 0
        else:
            r = stale if e["stale"] else repo(path, SCHEDULE)
            try:
                given = set(tags)
                ok = r.tags(e["action"], e["spec"], given, expect=expect, autoremove=e["autoremove"], force=e["force"])
                check(ok in (True, False), f"tags() returns {ok!r}")
            except Exception:
                ok = False
        what = f"tags {e} (selects {sel}, expect {expect})"
        check(ok == (why is None), f"{what}: reports {'success' if ok else 'failure'} although {why or 'nothing is wrong'}")
        got = meta.on_disk(path)
        if why is not None:
            check(tree(path, skip=(".backup",)) == before, f"{what}: failed ({why}) but changed the repository")
        for u in set(want) | set(got):
            check(got.get(u) == want.get(u), f"{what}: revision {u} is {got.get(u)} instead of {want.get(u)} (before {model.get(u)})")
        if e["via"] == "api" and why is None:
            mem = {x.uuid: sorted(x.tags) for x in r.history}
            check(mem == {u: m["tags"] for u, m in want.items()}, f"{what}: in memory {mem}")
        model = want
        labels.add("failed" if why else "done")
        labels.add(e["via"])
        if why and why.startswith("expected") and sum(set(model[u]["tags"]) == expect for u in sel):
            labels.add("partly as expected")
        if not model:
            break
    return Info("done" in labels, labels)


CAMPAIGNS = [Campaign("edits", case, run_case, "at least one edit took effect", batch=80)]

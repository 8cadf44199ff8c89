"""C21 The HTTP interface authenticates every request and changes only what it says."""
import asyncio
import datetime
import fcntl
import json
import logging
import os
import re
import shutil
from urllib.parse import quote

from hypothesis import strategies as st

from lib import meta
from lib.core import Campaign, HarnessError, Info, check
from lib.memnet import Net, Raw
from lib.vloop import BASE, Daemons
from lib.world import fast_environment, fast_yaml, quiet_main, tree
from props.c14 import Bad, Ref, Unjudged

PROP = "C21"
TECHNIQUE = "stateful property-based testing: generated HTTP requests, lock states, edits and reconfigurations against a reference model of the interface"
LEVEL = "exploration"
NOTE = "up to 14 steps against a daemon with up to 5 active or dead backups; raw HTTP over an in-memory transport, tag updates also interrupted in the middle of the request"
ASSUMPTIONS = ["malformed HTTP, Expect: headers and repeated Authorization headers are not judged",
               "the authentication scheme is matched as 'Bearer'; whether other spellings are accepted is not judged",
               "when a request is wrong in several ways any of the matching statuses will do"]


def worker_init(env):
    fast_environment()
    quiet_main()
    fast_yaml()
    logging.disable(logging.CRITICAL)


NAMES = ["vm0", "vm1", "a.b-c", "x y", "ü%41", "q?z#"]
UNKNOWN = ["nope", "..", "VM0", "vm", "vm0.", "vm0%00", ".", "vm*", "%2e%2e"]
TOK = ["t1", "Secret-2", "x.y+z", "t11"]
TAGS = ["daily", "weekly", "manual:a", "manual:b", "old"]
HOST, PORT = "127.0.0.1", 6023

tags = st.lists(st.sampled_from(TAGS), max_size=3, unique=True)
newtags = st.one_of(tags, tags, st.just([]), st.lists(st.sampled_from(TAGS + ["", "ü", "a b", "manual:", "daily"]), max_size=4))
BADBODY = [b"", b"{", b"[]", b'"x"', b"null", b"5", b'{"old_tags": %o}', b'{"new_tags": ["x"]}', b'{"old_tags": %o, "new_tags": "daily"}',
           b'{"old_tags": %o, "new_tags": [1]}', b'{"old_tags": %o, "new_tags": [null]}', b'{"old_tags": %o, "new_tags": [[]]}', b'{"old_tags": %o, "new_tags": ["x", {}]}',
           b'{"old_tags": %o, "new_tags": null}', b'{"old_tags": %o, "new_tags": {"a": 1}}', b'{"old_tags": %o, "new_tags": true}', b'{"old_tags": "ab", "new_tags": []}',
           b'{"old_tags": null, "new_tags": ["x"]}', b'{"old_tags": %o, "new_tags": [1.5, "x"]}', b"\xff\xfe", b'[["old_tags", []], ["new_tags", []]]']
METHODS = ["GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "PROPFIND", "TRACE"]
auth_ok = st.tuples(st.sampled_from(["good", "good", "ok"]), st.integers(0, 3))
auth_bad = st.tuples(st.sampled_from(["none", "basic", "bare", "prefix", "suffix", "empty", "client", "query", "cookie", "case", "scheme", "comma", "proxy"]), st.integers(0, 3))
EPS = {"status": "GET", "reload": "POST", "jobs": "GET", "run": "POST", "backups": "GET", "purge": "POST", "touch": "POST", "revs": "GET", "tags": "PUT", "other": "GET"}
spec = st.one_of(
    st.tuples(st.just("uuid"), st.integers(0, 5)), st.tuples(st.just("uuid"), st.integers(0, 3)), st.tuples(st.just("uuid"), st.integers(0, 3)),
    st.tuples(st.just("text"), st.sampled_from(["last", "first", "0", "1", "7", "all", "local", "clean", "tag:daily", "tag:none", "server:peer", "not(all)", "last(local)", "0,1", "nope",
                                                "last(tag:none)", "trust:bogus", "(", "0..", "-1", "trust:verified", "2..0"])),
)
body = st.one_of(
    st.fixed_dictionaries({"kind": st.just("good"), "new": newtags}), st.fixed_dictionaries({"kind": st.just("good"), "new": newtags}),
    st.fixed_dictionaries({"kind": st.just("good"), "new": newtags}),
    st.fixed_dictionaries({"kind": st.just("stale"), "old": tags, "new": newtags}),
    st.fixed_dictionaries({"kind": st.just("super"), "new": newtags}), st.fixed_dictionaries({"kind": st.just("sub"), "new": newtags}),
    st.fixed_dictionaries({"kind": st.just("bad"), "n": st.integers(0, len(BADBODY) - 1)}),
)
req = st.fixed_dictionaries({
    "auth": st.one_of(auth_ok, auth_ok, auth_ok, auth_ok, auth_bad),
    "ep": st.sampled_from(["status", "reload", "jobs", "run", "backups", "purge", "touch", "revs", "revs", "tags", "tags", "tags", "tags", "tags", "other"]),
    "method": st.one_of(st.none(), st.none(), st.none(), st.none(), st.none(), st.none(), st.none(), st.sampled_from(METHODS)),
    "name": st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(0, 4), st.sampled_from(UNKNOWN)),
    "spec": spec, "body": body,
    "auto": st.sampled_from(["", "", "autoremove=1", "autoremove=0", "autoremove=true", "autoremove="]),
    "clean": st.sampled_from(["", "", "only_clean=1", "only_clean=0"]),
    "filter": st.sampled_from([None, None, "", "vm", "^vm0$", "0", "[ab]", "nothing", "(", "*", "x y", r"^a\.b", "^b"]),
    "keep": st.booleans(),
})
# what happens while the body of a tag update arrives
tagreq = req.map(lambda r: dict(r, ep="tags", method=None))
edit = st.tuples(st.just("edit"), st.integers(0, 4), st.integers(0, 5), st.one_of(st.none(), tags, tags, tags))
lock = st.tuples(st.sampled_from(["lock", "lock", "unlock"]), st.integers(0, 4))
tokens = st.sets(st.integers(0, 3)).map(sorted)
conf = st.tuples(st.just("conf"), st.one_of(tokens, tokens, tokens, st.none()), st.lists(st.booleans(), min_size=5, max_size=5), st.booleans())
step = st.one_of(
    st.tuples(st.just("req"), req), st.tuples(st.just("req"), req), st.tuples(st.just("req"), req), st.tuples(st.just("req"), req), st.tuples(st.just("req"), req),
    st.tuples(st.just("split"), tagreq, st.one_of(edit, lock, st.tuples(st.just("req"), tagreq), conf), st.integers(0, 60)),
    lock, edit, conf, st.tuples(st.just("rmdir"), st.integers(0, 4)),
)
case = st.fixed_dictionaries({
    "repos": st.lists(st.fixed_dictionaries({
        "active": st.booleans(), "revs": st.lists(meta.rev_strategy(tags=TAGS, maxtags=2), max_size=4), "reports": st.integers(0, 2)}), min_size=1, max_size=5),
    "names": st.permutations(range(6)).map(list),
    "tokens": tokens.map(lambda t: t or [0]),
    "steps": st.lists(step, min_size=1, max_size=14),
})
# mostly tag updates that could succeed
updates = st.fixed_dictionaries({
    "auth": st.sampled_from([["good", 0]] * 9 + [["none", 0]]), "ep": st.just("tags"), "method": st.none(), "name": st.integers(0, 1),
    "spec": st.one_of(st.tuples(st.just("uuid"), st.integers(0, 2)), st.tuples(st.just("uuid"), st.integers(0, 2)), spec),
    "body": body, "auto": st.sampled_from(["", "autoremove=1", "autoremove=1", "autoremove=0"]), "clean": st.just(""), "filter": st.none(), "keep": st.booleans()})
edit2 = st.tuples(st.just("edit"), st.integers(0, 1), st.integers(0, 2), st.one_of(st.none(), tags, tags, tags))
lock2 = st.tuples(st.sampled_from(["lock", "unlock", "unlock"]), st.integers(0, 1))
tagcase = st.fixed_dictionaries({
    "repos": st.lists(st.fixed_dictionaries({
        "active": st.integers(0, 5).map(lambda x: x == 0), "revs": st.lists(meta.rev_strategy(tags=TAGS[:3], maxtags=2), min_size=1, max_size=3), "reports": st.just(0)}), min_size=1, max_size=2),
    "names": st.just(list(range(6))),
    "tokens": st.just([0]),
    "steps": st.lists(st.one_of(
        st.tuples(st.just("req"), updates), st.tuples(st.just("req"), updates), st.tuples(st.just("req"), updates),
        st.tuples(st.just("split"), updates, st.one_of(edit2, lock2, st.tuples(st.just("req"), updates), conf), st.integers(0, 60)),
        st.tuples(st.just("split"), updates, st.one_of(edit2, st.tuples(st.just("req"), updates)), st.integers(0, 60)),
        edit2, lock2, st.tuples(st.just("req"), updates.map(lambda r: dict(r, ep="revs")))), min_size=3, max_size=12),
})


class Model:
    pass


def run_case(case, env):
    d = env.dir()
    w = Model()
    w.base = os.path.join(d, "base")
    os.makedirs(w.base)
    w.names = [NAMES[case["names"][i]] for i in range(len(case["repos"]))]
    w.labels = set()
    w.locks = {}
    for n, r in zip(w.names, case["repos"]):
        meta.build(os.path.join(w.base, n), r["revs"], BASE - datetime.timedelta(seconds=10))
        os.makedirs(os.path.join(w.base, n, "quarantine"))
        for i in range(r["reports"]):
            with open(os.path.join(w.base, n, "quarantine", f"{i}.report"), "w") as f:
                f.write("x")
        for x in (".backup", ".purge"):
            open(os.path.join(w.base, n, x), "w").close()
    w.n = 0

    def handler(args):
        return 0, 1, None, b""

    with Daemons(d, handler) as ds:
        w.ds = ds
        w.net = Net(ds.loop)
        w.pending = None

        def config(toks, active):
            w.pending = toks, [n for n, a in zip(w.names, active) if a and not (n in w.removed)]
            ds.config({"global": {"base-dir": w.base, "worker-limit": 5}, "api": {"addrs": HOST, "port": PORT, "tokens": toks and {TOK[i]: f"client{i}" for i in toks}},
                       "schedules": {"s": {"daily": {"interval": "1d", "keep": 50}, "weekly": {"interval": "7d", "keep": 50}}},
                       "jobs": {n: {"schedule": "s", "source": {"type": "file", "filename": "/nonexistent"}} for n in w.pending[1]}})

        def applied():
            w.tokens = [TOK[i] for i in w.pending[0] or []]
            w.jobs = sorted(w.pending[1])
            w.dead = sorted(n for n in os.listdir(w.base) if n not in w.jobs and os.path.isdir(os.path.join(w.base, n)))
            ds.loop.spin(300)
        w.config, w.applied = config, applied
        w.removed = set()
        config(case["tokens"], [r["active"] for r in case["repos"]])
        w.dm = ds.daemon()
        ds.call(w.dm.api_server)
        applied()
        w.raw = None
        for s in case["steps"]:
            dostep(w, s)
            if s[0] in ("req", "split"):
                w.n += 1
        for f in w.locks.values():
            f.close()
        errors = [e for e in ds.loop.errors if "was destroyed" not in e["message"]]
        check(not errors, lambda: f"unexpected errors in the event loop: {errors}")
    return Info(w.n > 0 and len(w.labels) >= 3, w.labels)


def path_of(w, i):
    return os.path.join(w.base, w.names[i % len(w.names)])


def dostep(w, s):
    ds = w.ds
    if s[0] == "req":
        request(w, s[1])
    elif s[0] == "split":
        request(w, s[1], s[2], s[3])
    elif s[0] == "lock":
        p = path_of(w, s[1])
        if p not in w.locks and os.path.isdir(p):
            f = open(os.path.join(p, ".backup"))
            fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
            w.locks[p] = f
    elif s[0] == "unlock":
        p = path_of(w, s[1])
        if p in w.locks:
            w.locks.pop(p).close()
    elif s[0] == "edit":
        p = path_of(w, s[1])
        if p in w.locks or not os.path.isdir(p):
            return
        revs = sorted(meta.on_disk(p).values(), key=lambda r: r["timestamp"])
        if not revs:
            return
        r = revs[s[2] % len(revs)]
        f = os.path.join(p, r["uuid"] + ".rev")
        if s[3] is None:
            os.unlink(f)
        else:
            meta.write_rev(p, dict(r, tags=list(s[3])))
        w.labels.add("edited by others")
    elif s[0] == "conf":
        w.config(s[1], s[2])
        w.labels.add("configuration changed")
        if s[3]:
            ds.call(w.dm.reload)
            w.applied()
    elif s[0] == "rmdir":
        n = w.names[s[1] % len(w.names)]
        p = os.path.join(w.base, n)
        if n in w.jobs or n in w.pending[1] or p in w.locks or not os.path.isdir(p):
            return
        shutil.rmtree(p)
        w.removed.add(n)
        w.labels.add("directory removed")


def headers_of(w, auth):
    """(headers, query, may be granted: True/False/None)"""
    kind, i = auth
    t = TOK[i]
    if kind == "ok":
        return [f"Authorization: Bearer {t}"], "", t in w.tokens
    if kind == "good":
        t = w.tokens[i % len(w.tokens)] if w.tokens else t
        return [f"Authorization: Bearer {t}"], "", t in w.tokens
    good = w.tokens[i % len(w.tokens)] if w.tokens else t
    if kind == "none":
        return [], "", False
    if kind == "basic":
        return [f"Authorization: Basic {good}"], "", False
    if kind == "bare":
        return [f"Authorization: {good}"], "", False
    if kind == "prefix":
        return [f"Authorization: Bearer {good[:-1]}"], "", good[:-1] in w.tokens
    if kind == "suffix":
        return [f"Authorization: Bearer {good}x"], "", False
    if kind == "empty":
        return ["Authorization: Bearer "], "", False
    if kind == "client":
        return [f"Authorization: Bearer client{i}"], "", False
    if kind == "query":
        return [], f"token={quote(good)}&access_token={quote(good)}", False
    if kind == "cookie":
        return [f"Cookie: token={good}"], "", False
    if kind == "case":
        return [f"Authorization: Bearer {good.swapcase()}"], "", False
    if kind == "scheme":
        return [f"Authorization: bearer {good}"], "", None
    if kind == "comma":
        return [f"Authorization: Bearer {good},{good}"], "", False
    if kind == "proxy":
        return [f"Proxy-Authorization: Bearer {good}", f"X-Authorization: Bearer {good}"], "", False
    raise HarnessError(kind)


def snapshot(w):
    return {n: shot(os.path.join(w.base, n)) for n in sorted(os.listdir(w.base))}


def shot(p):
    if not os.path.isdir(p):
        return "not a directory"
    t = {k: v for k, v in tree(p).items() if os.path.basename(k) not in (".backup", ".purge", "backy.log")}
    return t, os.stat(p).st_mtime_ns


OLD = 1500000000 * 10**9


def request(w, r, between=None, cut=0):
    ds = w.ds
    ep = r["ep"]
    name = r["name"] if isinstance(r["name"], str) else w.names[r["name"] % len(w.names)]
    p = os.path.join(w.base, name)
    qname = quote(name, safe="") if not name.startswith("%") else name
    hdrs, query, granted = headers_of(w, r["auth"])
    queries = [query] if query else []
    revs = sorted(meta.on_disk(p).values(), key=lambda x: x["timestamp"]) if name in w.names and os.path.isdir(p) else []
    data = b""
    spec = None
    if ep in ("status", "jobs", "reload", "backups"):
        target = "/v1/" + ep
        if ep == "status" and r["filter"] is not None:
            queries.append("filter=" + quote(r["filter"], safe=""))
    elif ep == "run":
        target = f"/v1/jobs/{qname}/run"
    elif ep in ("purge", "touch", "revs"):
        target = f"/v1/backups/{qname}/{ep}"
        if ep == "revs" and r["clean"]:
            queries.append(r["clean"])
    elif ep == "tags":
        spec = meta.uid(r["spec"][1]) if r["spec"][0] == "uuid" else r["spec"][1]
        target = f"/v1/backups/{qname}/revs/{quote(spec, safe='')}/tags"
        if r["auto"]:
            queries.append(r["auto"])
        try:
            sel = Ref(revs).parse(spec)
        except (Bad, Unjudged):
            sel = []
        data, old, new = body_of(r["body"], sorted(sel[0]["tags"]) if sel else [])
    else:
        target = ["/", "/v1", "/v2/status", "/v1/status/", f"/v1/jobs/{qname}", f"/v1/backups/{qname}", f"/v1/backups/{qname}/revs/0", "/v1/../v1/status", "//v1/status", "/%76%31/backups/x"][r["spec"][1] % 10 if r["spec"][0] == "uuid" else 3]
    method = r["method"] or EPS[ep]
    if queries:
        target += "?" + "&".join(queries)
    hdrs = [f"{method} {target} HTTP/1.1", "Host: localhost", *hdrs, f"Content-Length: {len(data)}", "Content-Type: application/json"]
    text = ("\r\n".join(hdrs) + "\r\n\r\n").encode() + data
    if w.raw is None or not r["keep"] or w.raw.lost:
        w.raw = ds.wait(ds.loop.create_connection(Raw, HOST, PORT))[1]
    else:
        w.labels.add("connection reused")
    raw = w.raw
    if between is not None:
        k = len(text) - len(data) + cut % max(len(data), 1)
        raw.tr.write(text[:k])
        ds.loop.spin(30)
        if raw.data or raw.lost:
            k = None  # answered before everything was sent
            w.raw = None
        else:
            before_tokens = list(w.tokens)
            if between[0] == "req":
                other = w.raw
                w.raw = None
                request(w, between[1])
                w.raw = other
            else:
                dostep(w, between)
            if w.tokens != before_tokens and granted is not False:
                granted = None  # changed in between
            w.labels.add("interrupted request")
            text = text[k:]
    else:
        k = 0
    for n in w.names:
        if os.path.isdir(os.path.join(w.base, n)):
            os.utime(os.path.join(w.base, n), ns=(OLD, OLD))
    before = snapshot(w)
    disk = {n: meta.on_disk(os.path.join(w.base, n)) for n in before}
    procs = len(ds.procs)
    if k is not None:
        raw.tr.write(text)
    ds.loop.spin(60)
    head = method == "HEAD"
    res = raw.take(head)
    if res is None:
        ds.loop.run(40)
        res = raw.take(head)
    what = f"{method} {target} ({r['auth'][0]} token, {'dead' if name in w.dead else 'active' if name in w.jobs else 'unknown'} backup)"
    check(res is not None, f"{what} was not answered")
    status, rh, out = res
    if rh.get("connection", "").lower() == "close":
        w.raw = None
    after = snapshot(w)
    ds.loop.spin(300)
    started = [str(a[a.index("-C") + 1]) if "-C" in a else str(a) for a, _ in ds.procs[procs:]]
    reloaded = w.jobs != sorted(w.dm.jobs)

    def unchanged(but=()):
        for n in sorted(set(before) | set(after)):
            if n not in but:
                check(before.get(n) == after.get(n), lambda: f"{what} -> {status} changed {n}: {difference(before.get(n), after.get(n))}")

    if granted is None:
        granted = status != 401
    if not granted:
        check(status == 401, f"{what} was answered with {status} although the token is not configured: {out[:200]!r}")
        unchanged()
        check(not started, f"{what} started {started}")
        check(not reloaded, f"{what} reloaded the configuration")
        for n in w.names + [x for n in disk for x in disk[n]] + TOK + [w.base]:
            check(n.encode() not in out, f"{what} reveals {n!r}: {out!r}")
        w.labels.add("refused: " + r["auth"][0])
        return
    w.labels.add(f"{ep} -> {status}")
    check(status != 401, f"{what} was refused with 401 although the token is configured")

    # ---- routes
    if ep == "other" or method != EPS[ep] and not (head and EPS[ep] == "GET"):
        if ep == "other" and status == 200 and target.startswith(("/v1/../", "//v1")):
            return
        check(status in (404, 405), f"{what} -> {status}")
        unchanged()
        check(not started and not reloaded, f"{what} started {started}")
        return
    if name.startswith("%") or name in (".", "..") or "\x00" in name:
        if ep in ("run", "purge", "touch", "revs", "tags"):
            check(status in (400, 404, 405), f"{what} -> {status}")
            unchanged()
            return
    dead, active = name in w.dead, name in w.jobs
    gone = dead and not os.path.isdir(p)

    def answer():
        check(status == 200, f"{what} -> {status}")
        unchanged()
        check(not started and not reloaded, f"{what} started {started}")
        return None if head else json.loads(out)

    def refused(statuses):
        check(status in statuses, f"{what} -> {status} instead of {'/'.join(map(str, sorted(statuses)))}")
        unchanged()
        check(not started and not reloaded, f"{what} -> {status} started {started}")

    if ep == "jobs":
        got = answer()
        if not head:
            check(sorted(j["name"] for j in got) == w.jobs, f"{what} lists {got} instead of {w.jobs}")
            check(all(j["path"] == os.path.join(w.base, j["name"]) for j in got), f"{what}: {got}")
    elif ep == "backups":
        got = answer()
        if not head:
            # removed ones may be listed until the next reload
            check(sorted(set(got) | w.removed & set(w.dead)) == w.dead and len(got) == len(set(got)), f"{what} lists {got} instead of {w.dead}")
    elif ep == "status":
        try:
            f = re.compile(r["filter"] or "")
        except re.error:
            refused({400})
            return
        got = answer()
        if head:
            return
        want = [n for n in w.jobs if f.search(n)]
        check(sorted(j["job"] for j in got) == want, f"{what} describes {[j['job'] for j in got]} instead of {want}")
        for j in got:
            h = sorted((x for x in disk[j["job"]].values() if "duration" in x["stats"]), key=lambda x: x["timestamp"])
            mine = {
                "local_revs": len([x for x in h if not x["server"]]),
                "unsynced_revs": len([x for x in h if x["server"] and x["tags"] != x["orig_tags"]]),
                "problem_reports": len([x for x in os.listdir(os.path.join(w.base, j["job"], "quarantine")) if x.endswith(".report")]),
                "last_duration": h[-1]["stats"]["duration"] if h else None,
            }
            theirs = {k: j[k] for k in mine}
            check(mine == theirs, f"{what}: {j['job']} is described as {theirs} instead of {mine}")
            last = j["last_time"] and datetime.datetime.fromisoformat(j["last_time"])
            check(last == (h[-1]["timestamp"] if h else None), f"{what}: last backup of {j['job']} at {last}, not {h and h[-1]['timestamp']}")
            check(set(filter(None, (j["last_tags"] or "").split(","))) == set(h[-1]["tags"] if h else []), f"{what}: {j} last tags")
            mt = {t for x in h for t in x["tags"] if t.startswith("manual:")}
            check(set(filter(None, j["manual_tags"].split(", "))) == mt, f"{what}: {j} manual tags instead of {mt}")
    elif ep == "reload":
        check(status == 204, f"{what} -> {status}")
        w.applied()
        check(sorted(w.dm.jobs) == w.jobs, f"after {what} the jobs are {list(w.dm.jobs)} instead of {w.jobs}")
    elif ep == "run":
        if not active:
            refused({404})
            return
        check(status == 202, f"{what} -> {status}")
        check(set(started) <= {p}, f"{what} started {started}")
        if p not in w.locks:
            check(started, f"{what} did not start a backup")
        unchanged({name})
    elif ep == "touch":
        if gone or not (dead or active):
            refused({404})
            return
        check(status == 204, f"{what} -> {status}")
        check(isinstance(after[name], tuple) and after[name][0] == before[name][0], f"{what} changed files: {difference(before[name], after[name])}")
        check(after[name][1] > OLD, f"{what} did not update the time of the backup")
        unchanged({name})
        check(not started, f"{what} started {started}")
    elif ep == "purge":
        if gone or not dead:
            refused({403} if active else {404})
            return
        check(status == 202, f"{what} -> {status}")
        unchanged({name})
        a, b = dict(before[name][0]), dict(after[name][0])
        check(".purge_pending" in b, f"{what} did not mark the backup")
        a.pop(".purge_pending", None)
        b.pop(".purge_pending", None)
        check(a == b, f"{what} changed {difference((a, 0), (b, 0))}")
        check(not started, f"{what} started {started}")
    elif ep == "revs":
        if gone or not (dead or active):
            refused({404})
            return
        got = answer()
        if head:
            return
        want = sorted((x for x in disk[name].values() if not x["server"] and (r["clean"] != "only_clean=1" or "duration" in x["stats"])), key=lambda x: x["timestamp"])
        got = [meta.canonical(dict(x, timestamp=datetime.datetime.fromisoformat(x["timestamp"]))) for x in got]
        check(got == want, f"{what} answers {got} instead of {want}")
    elif ep == "tags":
        tags(w, r, name, status, dead and not gone, active, spec, old, new, disk, what, refused, unchanged, started)


def tags(w, r, name, status, dead, active, spec, old, new, disk, what, refused, unchanged, started):
    p = os.path.join(w.base, name)
    errors = set()
    if new is None:
        errors.add(400)
        what += f" with {BADBODY[r['body']['n']]!r}"
    else:
        what += f" {sorted(old)} -> {new}"
    if active:
        errors.add(403)
    elif not dead:
        errors.add(404)
    if errors:
        refused(errors)
        return
    hist = sorted(disk[name].values(), key=lambda x: x["timestamp"])
    unjudged = False
    try:
        sel = Ref(hist).parse(spec)
    except Bad as e:
        # not the wording of the property: nothing must happen
        errors |= {400, 404}
        if not re.fullmatch(r"\w+", spec):
            errors.add(500)
    except Unjudged:
        unjudged = True
    else:
        if any(set(x["tags"]) != set(old) for x in sel):
            errors.add(412)
    if p in w.locks:
        errors.add(503)
        w.labels.add("locked")
    if errors:
        refused(errors)
        return
    if unjudged:
        return
    if not sel and status == 404:
        refused({404})
        return
    check(status == 204, f"{what} -> {status}; the selected revisions are {sel}")
    unchanged({name})
    check(not started, f"{what} started {started}")
    want = {u: dict(x) for u, x in disk[name].items()}
    for x in sel:
        if not new and r["auto"] == "autoremove=1" and not x["server"]:
            del want[x["uuid"]]
            w.labels.add("removed")
        else:
            want[x["uuid"]]["tags"] = sorted(set(new))
    got = meta.on_disk(p)
    check(got == want, lambda: f"{what}: afterwards the revisions are {got} instead of {want}")
    w.labels.add("tags set")


def difference(a, b):
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return f"{a} -> {b}"
    out = [f"{k}: {a[0].get(k)} -> {b[0].get(k)}" for k in sorted(set(a[0]) | set(b[0])) if a[0].get(k) != b[0].get(k)]
    if a[1] != b[1]:
        out.append("time of the directory")
    return "; ".join(out)


def body_of(b, current):
    """(bytes, old tags, new tags; None: malformed)"""
    if b["kind"] == "bad":
        return BADBODY[b["n"]].replace(b"%o", json.dumps(current).encode()), None, None
    old = {"good": current, "stale": b.get("old"), "super": current + ["more"], "sub": current[1:]}[b["kind"]]
    return json.dumps({"old_tags": old, "new_tags": b["new"]}).encode(), old, b["new"]


CAMPAIGNS = [Campaign("requests", case, run_case, "at least three different kinds of answers or events were seen", batch=15),
             Campaign("updates", tagcase, run_case, "at least three different kinds of answers or events were seen", batch=15)]

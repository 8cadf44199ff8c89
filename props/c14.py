"""C14 Revision specifications select exactly what they describe."""
import datetime
import os
import re

from hypothesis import strategies as st

from lib import meta
from lib.core import Campaign, HarnessError, Info, Skip, Violation, check
from lib.world import UTC, fast_environment, install_clock, quiet_main, repo, tree

PROP = "C14"
TECHNIQUE = "grammar-based generation of specifications (and mutations of them) against a reference parser/evaluator"
LEVEL = "exploration"
NOTE = "expressions up to ~25 nodes over histories of up to 7 revisions with distinct times; library call and `backy rev-parse`"
ASSUMPTIONS = ["timestamps within one history are distinct where dates are used", "an unparenthesised intersection binds closer than a union, ranges closest",
               "spellings of numbers other than plain digits (+1, 1_0) are not judged"]

BASE = datetime.datetime(2024, 3, 1, 12, 0, 0, tzinfo=UTC)


def worker_init(env):
    fast_environment()
    quiet_main()


word_single = st.one_of(
    st.tuples(st.just("num"), st.integers(0, 8)),
    st.tuples(st.just("num"), st.integers(0, 3)),
    st.tuples(st.just("id"), st.integers(0, 8)),
    st.tuples(st.just("id"), st.integers(0, 6)),
    st.sampled_from([["first"], ["last"], ["latest"]]),
)
date = st.one_of(
    # relative to revision i: exactly / slightly before / after
    st.tuples(st.just("date"), st.integers(0, 8), st.sampled_from([0, 0, 0, 1, -1, 3600, -3600, 86400]), st.integers(0, 4)),
    st.tuples(st.just("day"), st.integers(-45, 3)),
)
base = st.one_of(
    word_single, word_single,
    st.sampled_from([["all"], ["clean"], ["local"], ["remote"]]),
    st.tuples(st.just("tag"), st.sampled_from(meta.TAGS + ["none", ""])),
    st.tuples(st.just("trust"), st.sampled_from(["trusted", "distrusted", "verified", "Trusted", "VERIFIED", "bogus"])),
    st.tuples(st.just("server"), st.sampled_from(["", "peer", "other", "none"])),
)


def extend(m):
    operand = st.one_of(st.none(), word_single, date, date, st.tuples(st.just("fn"), st.sampled_from(["first", "last"]), m))
    return st.one_of(
        st.tuples(st.just("range"), operand, operand),
        st.tuples(st.just("range"), operand, operand),
        st.tuples(st.just("and"), m, m),
        st.tuples(st.just("or"), m, m),
        st.tuples(st.just("paren"), m),
        st.tuples(st.just("fn"), st.sampled_from(["first", "last", "not", "reverse"]), m),
        st.tuples(st.just("fn"), st.sampled_from(["first", "last", "not", "reverse"]), m),
    )


expr = st.recursive(base, extend, max_leaves=9)
case = st.fixed_dictionaries({
    "revs": st.lists(meta.rev_strategy(), max_size=7),
    "expr": expr,
    "spaces": st.integers(0, 2 ** 20),
    "mut": st.lists(st.tuples(st.sampled_from(["del", "ins", "rep", "dup"]), st.integers(0, 200),
                              st.sampled_from(list("(),&. .(),&0a:") + ["..", "not", "first", "reverse(", "tag:", "last("])), max_size=2),
    "cli": st.integers(0, 9).map(lambda x: x == 0),
    "tie": st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 6), st.integers(0, 6))),  # two revisions of the same instant (without dates only)
    "zone": st.sampled_from(["UTC", "UTC", "Europe/Berlin", "America/New_York", "Australia/Sydney", "Asia/Kolkata"]),
    "season": st.sampled_from([0, 91, 183, 274]),
})


class Zone:
    """the local time zone"""

    def __init__(self, name):
        self.name = name

    def use(self, name):
        import time
        import tzlocal
        if name is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = name
        time.tzset()
        tzlocal.reload_localzone()

    def __enter__(self):
        self.before = os.environ.get("TZ")
        self.use(self.name)

    def __exit__(self, *exc):
        self.use(self.before)


def dated(e):
    return e[0] in ("date", "day") or any(dated(x) for x in e[1:] if isinstance(x, (list, tuple)) and x)


class Bad(Exception):
    """must be refused"""


class Unjudged(Exception):
    pass


class Ref:
    def __init__(self, hist):
        self.h = hist  # records, oldest first

    # ---- single words
    def single(self, w):
        if not self.h:
            raise Bad("empty history")
        if re.fullmatch(r"[0-9]+", w):
            n = int(w)
            if n < len(self.h):
                return self.h[-1 - n]
        elif re.fullmatch(r"[-+]?[0-9_]+", w):
            if w.startswith("-") and int(w.replace("_", "") or "0") < 0:
                raise Bad("negative")
            raise Unjudged
        for r in self.h:
            if r["uuid"] == w:
                return r
        if w in ("last", "latest"):
            return self.h[-1]
        if w == "first":
            return self.h[0]
        raise Bad(f"no revision {w!r}")

    def word(self, w):
        if w.startswith("server:"):
            return [r for r in self.h if r["server"] == w[7:]]
        if w.startswith("tag:"):
            return [r for r in self.h if w[4:] in r["tags"]]
        if w.startswith("trust:"):
            t = w[6:].lower()
            if t not in ("trusted", "distrusted", "verified"):
                raise Bad("trust state")
            return [r for r in self.h if r["trust"] == t]
        if w == "all":
            return list(self.h)
        if w == "clean":
            return [r for r in self.h if "duration" in r["stats"]]
        if w == "local":
            return [r for r in self.h if not r["server"]]
        if w == "remote":
            return [r for r in self.h if r["server"]]
        return [self.single(w)]

    def fn(self, name, x):
        if name in ("first", "last"):
            if not x:
                raise Bad(f"{name} of nothing")
            return [x[0] if name == "first" else x[-1]]
        if name == "not":
            return [r for r in self.h if r not in x]
        return list(reversed(x))

    def bound(self, w):
        """(lowest index, highest index) selected when used as lower/upper bound"""
        if isinstance(w, dict):
            i = self.h.index(w)
            return i, i
        try:
            d = datetime.datetime.fromisoformat(w)
        except ValueError:
            i = self.h.index(self.single(w))
            return i, i
        if d.tzinfo is None:
            d = d.astimezone()
        lower = len([r for r in self.h if r["timestamp"] < d])  # first index >= d
        upper = len([r for r in self.h if r["timestamp"] <= d]) - 1
        return lower, upper

    def range(self, a, b):
        a, b = self.bound(a if a is not None else "first"), self.bound(b if b is not None else "last")
        if sum(a) > sum(b):
            a, b = b, a
        return self.h[a[0]:b[1] + 1]

    # ---- grammar
    def parse(self, s):
        self.t = [x.strip() for x in re.split(r"(\(|\)|,|&|\.\.)", s) if x.strip()]
        self.i = 0
        r = self.p_or()
        if self.i != len(self.t):
            raise Bad("trailing " + self.t[self.i])
        return r

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def p_or(self):
        r = self.p_and()
        while self.peek() == ",":
            self.i += 1
            r = r + [x for x in self.p_and() if x not in r]
        out = []
        for x in r:
            if x not in out:
                out.append(x)
        return out if len(out) != len(r) else r

    def p_and(self):
        r = self.p_range()
        while self.peek() == "&":
            self.i += 1
            o = self.p_range()
            r = [x for x in r if x in o]
        return r

    def p_range(self):
        kind, v = None, None
        if self.peek() != "..":
            kind, v = self.p_primary()
        if self.peek() != "..":
            return self.word(v) if kind == "word" else v
        self.i += 1
        kind2, v2 = None, None
        if self.peek() not in (None, ")", ",", "&"):
            if self.peek() == "..":
                raise Bad("range of range")
            kind2, v2 = self.p_primary()
        if self.peek() == "..":
            raise Bad("range of range")

        def operand(k, v):
            if k is None:
                return None
            if k == "word":
                return v
            if k == "single":
                return v[0]
            raise Bad("range needs single revisions")
        return self.range(operand(kind, v), operand(kind2, v2))

    def p_primary(self):
        w = self.peek()
        if w is None or w in (")", ",", "&", ".."):
            raise Bad(f"unexpected {w}")
        if w == "(":
            self.i += 1
            r = self.p_or()
            if self.peek() != ")":
                raise Bad("missing )")
            self.i += 1
            return "list", r
        self.i += 1
        if self.peek() == "(":
            if w not in ("first", "last", "not", "reverse"):
                raise Bad(f"no function {w}")
            self.i += 1
            r = self.p_or()
            if self.peek() != ")":
                raise Bad("missing )")
            self.i += 1
            r = self.fn(w, r)
            return ("single" if w in ("first", "last") else "list"), r
        return "word", w

    # ---- direct evaluation of the generated tree
    def ev(self, e):
        k = e[0]
        if k == "or":
            a, b = self.ev(e[1]), self.ev(e[2])
            out = []
            for x in a + b:
                if x not in out:
                    out.append(x)
            return out
        if k == "and":
            a, b = self.ev(e[1]), self.ev(e[2])
            return [x for i, x in enumerate(a) if x in b]
        if k == "paren":
            return self.ev(e[1])
        if k == "fn":
            return self.fn(e[1], self.ev(e[2]))
        if k == "range":
            def op(o):
                if o is None:
                    return None
                return self.ev(o)[0] if o[0] == "fn" else text(o, self.h)
            return self.range(op(e[1]), op(e[2]))
        return self.word(text(e, self.h))


def text(e, h):
    k = e[0]
    if k == "num":
        return str(e[1])
    if k == "id":
        return meta.uid(e[1])
    if k in ("tag", "trust", "server"):
        return f"{k}:{e[1]}"
    if k == "date":
        t = (h[e[1] % len(h)]["timestamp"] if h else BASE) + datetime.timedelta(seconds=e[2])
        z = e[3]
        if z == 1:
            t = t.astimezone(datetime.timezone(datetime.timedelta(hours=5, minutes=30)))
        elif z == 2:
            t = t.astimezone().replace(tzinfo=None)
        elif z == 3:
            return t.isoformat(" ")
        elif z == 4:
            t = t + datetime.timedelta(microseconds=1)
        return t.isoformat()
    if k == "day":
        return (BASE + datetime.timedelta(days=e[1])).date().isoformat()
    return k


LEVEL_OF = {"or": 0, "and": 1, "range": 2}


def render(e, h, sp, level=0):
    k = e[0]

    def gap():
        sp[0] = (sp[0] * 1103515245 + 12345) & 0x7fffffff
        return " " if sp[0] >> 16 & 7 == 0 else ""
    if k in LEVEL_OF:
        mine = LEVEL_OF[k]
        if k == "range":
            a = "" if e[1] is None else render(e[1], h, sp, 3)
            b = "" if e[2] is None else render(e[2], h, sp, 3)
            s = a + gap() + ".." + gap() + b
        else:
            s = render(e[1], h, sp, mine) + gap() + (",&"[mine]) + gap() + render(e[2], h, sp, mine)
        return "(" + s + ")" if mine < level else s
    if k == "paren":
        return "(" + gap() + render(e[1], h, sp) + gap() + ")"
    if k == "fn":
        return e[1] + gap() + "(" + render(e[2], h, sp) + ")" + gap()
    return text(e, h)


def evaluate(f):
    try:
        return f(), None
    except Bad as e:
        return None, str(e)


def run_case(case, env):
    with Zone(case["zone"]):
        return run_zone(case, env)


def run_zone(case, env):
    global BASE
    BASE = datetime.datetime(2024, 3, 1, 12, 0, 0, tzinfo=UTC) + datetime.timedelta(days=case["season"])
    d = env.dir()
    path = os.path.join(d, "vm")
    h = meta.build(path, case["revs"], BASE)
    tie = case["tie"] and len(h) > 1 and not dated(case["expr"])
    if tie:
        a, b = h[case["tie"][0] % len(h)], h[case["tie"][1] % len(h)]
        b["timestamp"] = a["timestamp"]
        meta.write_rev(path, b)
        order = [x.uuid for x in repo(path).history]
        h.sort(key=lambda x: (x["timestamp"], order.index(x["uuid"])))
    ref = Ref(h)
    s = render(case["expr"], h, [case["spaces"]])
    want = evaluate(lambda: ref.ev(case["expr"]))
    again = evaluate(lambda: ref.parse(s))
    if want[0] != again[0]:
        raise HarnessError(f"reference disagrees with itself on {s!r}: {want} {again}")
    for m in case["mut"]:
        if m[0] == "ins":
            i = m[1] % (len(s) + 1)
            s = s[:i] + m[2] + s[i:]
        elif s:
            i = m[1] % len(s)
            s = s[:i] + {"del": "", "rep": m[2], "dup": s[i] * 2}[m[0]] + s[i + 1:]
    if case["mut"]:
        try:
            want = evaluate(lambda: ref.parse(s))
        except Unjudged:
            raise Skip()
    ids = None if want[0] is None else [r["uuid"] for r in want[0]]
    r = repo(path)
    try:
        got = [x.uuid for x in r.find_revisions(s)]
        err = None
    except Exception as e:
        got, err = None, e
    if ids is None:
        check(got is None, f"{s!r} must be refused ({want[1]}) but selects {got} from {[x['uuid'] for x in h]}")
    else:
        check(err is None, f"{s!r} must select {ids} but fails with {err!r}")
        check(got == ids, f"{s!r} selects {got} instead of {ids} (history {[(x['uuid'], str(x['timestamp'])) for x in h]})")
    labels = ["refused" if ids is None else "empty" if not ids else "some", case["expr"][0]]
    if case["mut"]:
        labels.append("mutated")
    if tie and a is not b:
        labels.append("tie")
    if case["cli"] and s.strip():
        before = tree(path)
        rc, out, err = meta.cli(path, "rev-parse", "--uuid", f"--revision={s}")
        check((rc == 0) == (ids is not None), f"rev-parse {s!r} exits with {rc}, expected selection {ids}")
        check(out.split() == (ids or []), f"rev-parse {s!r} prints {out!r} instead of {ids}")
        rc, out, err = meta.cli(path, "rev-parse", f"--revision={s}")
        check(out.split("\n")[:-1] == [os.path.join(path, u + ".rev") for u in ids or []], f"rev-parse {s!r} prints {out!r}")
        check(tree(path) == before, "rev-parse modifies the repository")
        labels.append("cli")
    return Info(len(h) > 1 and case["expr"][0] not in ("num", "id", "first", "last", "latest"), labels)


CAMPAIGNS = [Campaign("specs", case, run_case, "history of at least two revisions and more than a single word", batch=120)]

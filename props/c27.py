"""C27 Detected differences are quarantined with complete evidence."""
import datetime
import hashlib
import io
import os

import yaml
from hypothesis import strategies as st

from lib import gen, hist
from lib.core import Campaign, Info, check, pattern, same
from lib.meta import cli
from lib.world import C4, fast_environment, install_clock, quiet_main, restore_clock

PROP = "C27"
TECHNIQUE = ("property-based testing: generated pairs of contents against the obvious comparison, and model-based histories of differing "
             "backups and report commands against the quarantine directory")
LEVEL = "exploration"
NOTE = "contents up to ~3 x 4 MiB (complete comparison) or 300 small blocks (sampled); histories of up to 10 operations on images up to ~9 MiB"
ASSUMPTIONS = ["the sampled comparison is only required to find a difference if all blocks (or the only block) differ, the copy is shorter, or everything is sampled"]


def worker_init(env):
    fast_environment()
    quiet_main()


def apply_edits(a, edits, unit):
    b = bytearray(a)
    for kind, at, n, seed in edits:
        if kind == "flip" and b:
            p = at % len(b)
            for i in range(p, min(len(b), p + n)):
                b[i] ^= 1 + seed
        elif kind == "edge" and b:
            # directly before or at the boundary of a block
            p = min(len(b) - 1, max(0, (at % (len(b) // unit + 1)) * unit - seed % 2))
            b[p] ^= 0x80
        elif kind == "last" and b:
            b[-1] ^= 1
        elif kind == "cut":
            del b[len(b) - min(len(b), 1 + at % (3 * unit if seed % 2 else 64)):]
        elif kind == "grow":
            b += pattern(seed % 3, seed, 1 + at % (2 * unit))
        elif kind == "zero" and b:
            p = at % len(b)
            m = min(len(b) - p, n)
            b[p:p + m] = bytes(m)
    return bytes(b)


edit = st.tuples(st.sampled_from(["flip", "flip", "edge", "last", "cut", "grow", "zero"]), st.integers(0, 2 ** 30),
                 st.one_of(st.just(1), st.integers(1, 5000)), st.integers(0, 100))
ecase = st.fixed_dictionaries({
    "size": st.one_of(st.integers(0, 3000), st.tuples(st.integers(0, 2), gen.delta).map(lambda t: max(0, t[0] * C4 + t[1])), st.sampled_from([0, C4, 2 * C4])),
    "kind": gen.kinds, "seed": gen.seeds,
    "edits": st.lists(edit, max_size=3),
})


class Short(io.BytesIO):
    """a source is not required to know its file descriptor"""


def judge(reports, a, b, what, covered=True):
    spans = []
    for pa, pb, pos in reports:
        check(pa != pb, f"{what}: a report at {pos} has two identical pieces of {len(pa)} bytes")
        check(a[pos:pos + len(pa)] == pa and b[pos:pos + len(pb)] == pb, f"{what}: pieces reported for {pos} are not what is there")
        check(len(pa) == len(pb) or pos + len(pa) >= len(a) or pos + len(pb) >= len(b), f"{what}: incomplete pieces at {pos}")
        spans.append((pos, pos + max(len(pa), len(pb))))
    if covered:
        n = min(len(a), len(b))
        x, y = bytearray(a[:n]), bytearray(b[:n])
        for s, e in spans:
            x[s:e] = y[s:e] = bytes(len(x[s:e]))
        check(x == y, f"{what}: a difference is not covered by the reports at {spans}")


def run_equal(case, env):
    import backy.utils
    a = pattern(case["kind"], case["seed"], case["size"])
    b = apply_edits(a, case["edits"], C4)
    reports = []
    fa, fb = Short(a), Short(b)
    got = backy.utils.files_are_equal(fa, fb, report=lambda x, y, p: reports.append((bytes(x), bytes(y), p)))
    what = f"comparing {len(a)} with {len(b)} bytes"
    check(got is (a == b), f"{what}: {got}")
    check(bool(reports) == (a != b), f"{what}: {len(reports)} reports")
    judge(reports, a, b, what)
    check(backy.utils.files_are_equal(Short(b), Short(a)) is (a == b), f"{what}, reversed")
    return Info(a != b, ["equal" if a == b else "different", f"{min(len(reports), 3)} reports", "size" if len(a) != len(b) else ""])


BS = 512
rcase = st.fixed_dictionaries({
    "blocks": st.one_of(st.integers(0, 6), st.integers(0, 300)), "rest": st.sampled_from([0, 0, 1, 511]),
    "seed": gen.seeds,
    "edits": st.lists(st.one_of(edit, st.tuples(st.just("all"), st.just(0), st.just(0), st.just(0))), max_size=2),
    "sample": st.sampled_from([0.01, 0.01, 0.1, 0.5, 1, 1, 0]),
    "tick": st.sampled_from([0, 0, 0.1, 100, 1000]),
})


def run_rough(case, env):
    import backy.utils
    a = pattern(2, case["seed"], case["blocks"] * BS + case["rest"])
    b = apply_edits(a, case["edits"], BS)
    if any(e[0] == "all" for e in case["edits"]):
        b = bytes(x ^ 1 for x in b)
    clock = install_clock()
    clock.tick = datetime.timedelta(seconds=case["tick"])
    reports = []
    try:
        got = backy.utils.files_are_roughly_equal(io.BytesIO(a), io.BytesIO(b), samplesize=case["sample"], blocksize=BS,
                                                  report=lambda x, y, p: reports.append((bytes(x), bytes(y), p)))
    finally:
        restore_clock()
    what = f"sampling {case['sample']} of {len(a)} and {len(b)} bytes"
    if a == b:
        check(got is True, f"{what}: equal contents are reported as different")
    check(bool(reports) == (got is False), f"{what}: result {got} with {len(reports)} reports")
    judge(reports, a, b, what, False)
    n = case["blocks"] * BS
    blocks = [i for i in range(0, max(n, 1), BS) if a[i:i + BS] != b[i:i + BS]]
    timely = case["tick"] < 1
    label = "undecided"
    if len(b) < len(a):
        check(got is False, f"{what}: a copy that is too short is accepted")
        label = "short"
    elif len(a) == len(b) and blocks and timely and (case["sample"] == 1 or len(blocks) == max(case["blocks"], 1)):
        check(got is False, f"{what}: difference in blocks {blocks[:5]} missed")
        label = "must be found"
    elif a == b:
        label = "equal"
    return Info(label in ("short", "must be found"), [label])


sel = st.lists(st.integers(0, 5), min_size=1, max_size=3)
op = st.one_of(
    st.tuples(st.just("bad"), st.integers(0, 3 * C4), st.integers(1, 255), st.one_of(st.just(1), st.integers(1, 10000), st.just(4 * C4))),
    st.tuples(st.just("bad"), st.integers(0, 3 * C4), st.integers(1, 255), st.one_of(st.just(1), st.integers(1, 10000), st.just(4 * C4))),
    st.tuples(st.just("longer"), st.integers(1, 6000)),
    st.tuples(st.just("good"), hist.guest),
    st.tuples(st.just("show"), st.one_of(st.none(), sel)),
    st.tuples(st.just("delete"), st.one_of(st.just("all"), sel, sel, st.just("unknown"))),
    st.tuples(st.just("delete"), st.one_of(sel, sel)),
    st.tuples(st.just("gc")),
)
hcase = st.fixed_dictionaries({
    "img": st.fixed_dictionaries({"size": gen.image_size(2), "init": st.tuples(gen.kinds, gen.seeds)}),
    "ops": st.lists(op, min_size=2, max_size=10),
    "full": st.booleans(),
})


def run_history(case, env):
    clock = install_clock()
    try:
        return go(case, env, clock)
    finally:
        restore_clock()


def quarantine(path):
    q = os.path.join(path, "quarantine")
    return sorted(f.removesuffix(".report") for f in os.listdir(q) if f.endswith(".report")) if os.path.isdir(q) else []


def go(case, env, clock):
    from props.c08 import attempt
    w = hist.World(env.dir(), case["img"])
    os.makedirs(w.path)
    w.write_config({"type": "rbd", "pool": "rbd", "image": "img", "full-always": case["full"]})
    model = {}  # uuid -> (offset range, source, target)
    files = {}
    labels = set()
    for o in case["ops"]:
        clock.advance(5)
        what = str(o)
        size = w.img.size
        content = w.img.content
        w.ceph.set(mutate=None)
        before = set(w.complete())
        if o[0] == "good":
            w.guest(o[1])
            content = w.img.content
            code, uuid, _ = attempt(w)
            check(code == 0 and uuid in w.complete(), f"{what}: good backup fails")
            w.model[uuid] = content
            w.order.append(uuid)
            check(quarantine(w.path) == sorted(model), f"{what}: a good backup changed the reports to {quarantine(w.path)}")
        elif o[0] in ("bad", "longer"):
            if not size:
                continue
            if o[0] == "bad":
                off, xor, n = o[1] % size, o[2], o[3]
                # the comparison samples: differ in all blocks unless there is only one
                if size >= 2 * C4 or off >= max(1, size // C4) * C4:
                    off, n = 0, size
                n = min(n, size - off)
                device = bytearray(content)
                device[off:off + n] = device[off:off + n].translate(bytes(i ^ xor for i in range(256)))
                w.ceph.set(mutate=f"{off} {xor} {n} -1")
            else:
                device = content + bytes(o[1])
                w.ceph.set(mutate=f"0 0 0 {len(device)}")
            device = bytes(device)
            code, uuid, _ = attempt(w)
            check(code != 0, f"{what}: backup that differs from its source is reported successful")
            check(uuid not in w.revs(), f"{what}: the rejected revision is kept")
            check(set(w.complete()) == before, f"{what}: other revisions changed")
            new = set(quarantine(w.path)) - set(model)
            check(new and set(model) <= set(quarantine(w.path)), f"{what}: reports {sorted(model)} -> {quarantine(w.path)}")
            check(len(new) == 1, f"{what}: {len(new)} new reports for one sampled difference")
            for u in new:
                model[u] = (device, content)
            labels.add("bad")
        elif o[0] == "show":
            ids = sorted(model)
            pick = None if o[1] is None else [ids[i % len(ids)] for i in o[1]] if ids else ["nosuch"]
            rc, out, err = cli(w.path, "reports-show", *([",".join(pick)] if pick else []))
            check((rc == 0) == (bool(ids) or pick is None), f"{what}: exit status {rc}")
            if rc == 0:
                for u in ids:
                    check((u in out) == (pick is None or u in pick), f"{what}: report {u} is shown: {u in out}")
                for u in pick if pick is not None else ids:
                    check(files[u].decode() in out, f"{what}: the content of {u} is not shown")
            labels.add("show")
        elif o[0] == "delete":
            ids = sorted(model)
            if o[1] == "all":
                argv, gone, ok = ["--all-reports"], ids, True
            elif o[1] == "unknown" or not ids:
                argv, gone, ok = ["nosuch"], [], False
            else:
                gone = sorted({ids[i % len(ids)] for i in o[1]})
                argv, ok = [",".join(gone)], True
            rc, out, err = cli(w.path, "reports-delete", *argv)
            check((rc == 0) == ok, f"{what}: reports-delete {argv} exits with {rc}: {err}")
            for u in gone:
                del model[u]
                labels.add("deleted")
        elif o[0] == "gc":
            collect(w)
        have = quarantine(w.path)
        check(have == sorted(model), f"{what}: reports are {have}, expected {sorted(model)}")
        rc, out, err = cli(w.path, "reports-list")
        check(rc == 0 and sorted(out.split()) == have, f"{what}: reports-list prints {out!r}, there are {have}")
        rc, out, err = cli(w.path, "check")
        check(rc == (1 if have else 0), f"{what}: check exits with {rc} although there are {len(have)} reports")
        for u in have:
            with open(os.path.join(w.path, "quarantine", u + ".report"), "rb") as f:
                data = f.read()
            check(files.setdefault(u, data) == data, f"{what}: report {u} changed")
            judge_report(w.path, u, yaml.safe_load(data), *model[u], what)
    w.check_restores("finally")
    return Info("bad" in labels, labels)


def collect(w):
    from lib.world import rbd_source, repo
    rbd_source(repo(w.path)).gc()



def judge_report(path, u, d, device, content, what):
    check(d.get("uuid") == u, f"{what}: report {u} has uuid {d.get('uuid')}")
    check(isinstance(d.get("timestamp"), datetime.datetime), f"{what}: report {u} has no time")
    pieces = []
    for k in ("source_hash", "target_hash"):
        p = os.path.join(path, "quarantine/chunks", str(d.get(k)))
        check(os.path.exists(p), f"{what}: the {k} piece of report {u} is missing")
        with open(p, "rb") as f:
            pieces.append(f.read())
        check(hashlib.md5(pieces[-1]).hexdigest() == d[k], f"{what}: the {k} piece of report {u} is damaged")
    off = d["offset"]
    check(pieces[0] != pieces[1], f"{what}: both pieces of report {u} are identical")
    check(pieces[0] and device[off:off + len(pieces[0])] == pieces[0], f"{what}: the source piece of report {u} is not what the source has at {off}")
    check(content[off:off + len(pieces[1])] == pieces[1] and (len(pieces[0]) == len(pieces[1]) or off + len(pieces[1]) == len(content)),
          f"{what}: the target piece of report {u} is not what the backup has at {off}")


CAMPAIGNS = [
    Campaign("equal", ecase, run_equal, "contents differ", batch=20),
    Campaign("sampled", rcase, run_rough, "the difference has to be found", batch=100, weight=0.4),
    Campaign("history", hcase, run_history, "a difference was detected", batch=12),
]

"""C07 Incremental streams are applied exactly or rejected."""
import io
import os
import struct

from hypothesis import strategies as st

from lib import gen, hist
from lib.core import Campaign, Info, Skip, Violation, check, pattern, same
from lib.world import C4, fast_environment, new_revision, rbd_source, repo, restore_bytes

PROP = "C07"
TECHNIQUE = "structure-aware fuzzing of RBD diff v1 streams (valid and mutated) against a bytearray interpreter"
LEVEL = "exploration"
NOTE = "streams of up to ~12 records up to 8 MiB on images up to ~5 chunks; every cut position class and record-level mutation is sampled"
ASSUMPTIONS = ["well-formed means: header, from/to/size records, data and zero records (non-empty zero ranges) inside the stated size, end record"]

HEADER = b"rbd diff v1\n"


def worker_init(env):
    fast_environment()


rec = st.tuples(st.sampled_from(["w", "w", "w", "z"]), gen.offset(4), gen.length, gen.kinds, gen.seeds)
valid = {
    "old": st.fixed_dictionaries({"size": gen.image_size(3), "init": st.tuples(gen.kinds, gen.seeds)}),
    "size": gen.image_size(4),
    "order": st.permutations(["f", "t", "s"]),
    "recs": st.lists(rec, max_size=12),
    "flush": st.sampled_from([1, 2, 10]),
    "read": st.sampled_from([0, 0, 1, 7, 4096, 65537]),
}
case = st.fixed_dictionaries(valid)
mutation = st.one_of(
    st.tuples(st.just("cut"), st.floats(0, 1)),
    st.tuples(st.just("cut"), st.floats(0, 1)),
    st.tuples(st.just("cutnear"), st.integers(0, 14), st.integers(-9, 18)),
    st.tuples(st.just("cutnear"), st.integers(0, 14), st.integers(-9, 18)),
    st.tuples(st.just("header"), st.integers(0, 11), st.integers(1, 255)),
    st.tuples(st.just("type"), st.integers(0, 14), st.sampled_from([0, 1, 65, 97, 100, 120, 121, 127, 128, 255, 87, 90, 69, 83])),
    st.tuples(st.just("late"), st.integers(0, 13), st.sampled_from(["f", "t", "s"])),
    st.tuples(st.just("name"), st.sampled_from(["f", "t"]), st.sampled_from(["backy-other", "", "x", "{}x", "prefix"])),
    st.tuples(st.just("noend")),
)
mcase = st.fixed_dictionaries({**valid, "mut": mutation, "end2end": st.sampled_from([False, False, False, True])})


class Slow(io.RawIOBase):
    """a pipe that delivers little pieces"""

    def __init__(self, data, step):
        self.b = io.BytesIO(data)
        self.step = step

    def readable(self):
        return True

    def readinto(self, buf):
        d = self.b.read(min(len(buf), self.step) if self.step else len(buf))
        buf[:len(d)] = d
        return len(d)


def name_rec(t, name):
    n = name.encode("ascii")
    return t.encode() + struct.pack("<i", len(n)) + n


def build(case, snap_from, snap_to):
    """-> (records as bytes, index of first data record, resulting content, old content)"""
    old = pattern(*case["old"]["init"], gen.off(case["old"]["size"]))
    size = gen.off(case["size"])
    m = bytearray(old[:size])
    m += bytes(size - len(m))
    meta = {"f": name_rec("f", snap_from), "t": name_rec("t", snap_to), "s": b"s" + struct.pack("<Q", size)}
    recs = [meta[k] for k in case["order"]]
    for t, o, n, kind, seed in case["recs"]:
        off = gen.off(o, size)
        n = min(n, size - off)
        if t == "z":
            if not n:
                continue
            recs.append(b"z" + struct.pack("<QQ", off, n))
            m[off:off + n] = bytes(n)
        else:
            d = pattern(kind, seed, n)
            recs.append(b"w" + struct.pack("<QQ", off, n) + d)
            m[off:off + n] = d
    recs.append(b"e")
    return recs, bytes(m), old


def apply(case, env, stream, old):
    from backy.rbd.chunked import File
    from backy.rbd.rbd import RBDDiffV1
    d = env.dir()
    path = os.path.join(d, "vm")
    r = repo(path)
    a = new_revision(r)
    with rbd_source(r).open(a, "wb") as f:
        f.write(old)
    b = new_revision(r)
    src = rbd_source(r)
    fh = io.BufferedReader(Slow(stream, case["read"]), 8 * C4 if not case["read"] else 65536)
    saved = File.flush_target
    File.flush_target = case["flush"]
    try:
        with src.open(b, "wb", a) as target:
            RBDDiffV1(fh).integrate(target, "backy-from", "backy-to")
    finally:
        File.flush_target = saved
    r = repo(path)
    out = []
    for u in (b.uuid, a.uuid):
        with rbd_source(r).open(r.find_by_uuid(u)) as f:
            out.append(f.read())
    return out


def run_valid(case, env):
    if case["read"] and len(case["recs"]) > 4 and case["read"] < 100:
        case["read"] = 4096
    recs, want, old = build(case, "backy-from", "backy-to")
    stream = HEADER + b"".join(recs)
    got, parent = apply(case, env, stream, old)
    same("content after applying the stream", got, want)
    same("content of the parent", parent, old)
    labels = [("grow" if len(want) > len(old) else "shrink" if len(want) < len(old) else "keep")]
    return Info(len(recs) > 4 and want != old, labels)


def mutate(case, recs, snap_from, snap_to):
    mut = case["mut"]
    k = mut[0]
    ends = []
    n = len(HEADER)
    for x in recs:
        n += len(x)
        ends.append(n)
    starts = [len(HEADER)] + ends[:-1]
    stream = HEADER + b"".join(recs)
    if k == "cut":
        return stream[:min(int(mut[1] * len(stream)), len(stream) - 1)]
    if k == "cutnear":
        p = starts[mut[1] % len(starts)] + mut[2]
        return stream[:max(0, min(p, len(stream) - 1))]
    if k == "header":
        b = bytearray(stream)
        b[mut[1]] ^= mut[2]
        return bytes(b)
    if k == "type":
        b = bytearray(stream)
        b[starts[mut[1] % len(starts)]] = mut[2]
        return bytes(b)
    if k == "late":
        data = [i for i, x in enumerate(recs) if x[:1] in b"wz"]
        if not data:
            raise Skip()
        i = data[mut[1] % len(data)] + 1
        x = {"f": name_rec("f", snap_from), "t": name_rec("t", snap_to), "s": next(r for r in recs if r[:1] == b"s")}[mut[2]]
        return HEADER + b"".join(recs[:i] + [x] + recs[i:])
    if k == "name":
        right = snap_from if mut[1] == "f" else snap_to
        wrong = right[:-1] if mut[2] == "prefix" else mut[2].format(right)
        return HEADER + b"".join(name_rec(mut[1], wrong) if x[:1] == mut[1].encode() else x for x in recs)
    return HEADER + b"".join(recs[:-1])


def run_mutated(case, env):
    if case["read"] and case["read"] < 4096:
        case["read"] = 4096
    label = [case["mut"][0]]
    if not case["end2end"]:
        recs, want, old = build(case, "backy-from", "backy-to")
        stream = mutate(case, recs, "backy-from", "backy-to")
        try:
            apply(case, env, stream, old)
        except Exception:
            return Info(True, label)
        raise Violation(f"a malformed stream ({case['mut']}) was accepted")
    # the same through a whole backup: nothing may be recorded
    w = hist.World(env.dir(), case["old"])
    w.backup()
    parent = w.order[0]
    r = repo(w.path)
    rev = new_revision(r)
    f, t = f"backy-{parent}", f"backy-{rev.uuid}"
    recs, want, old = build(case, f, t)
    (w.img.dir / "head").write_bytes(want)
    (w.ceph.root / "rawdiff").write_bytes(mutate(case, recs, f, t))
    try:
        ok = rbd_source(r).backup(rev)
    except Exception:
        ok = False
    check(not ok, f"a backup applying a malformed stream ({case['mut']}) reports success")
    check(set(w.complete()) == {parent}, "a backup applying a malformed stream is on record as complete")
    w.check_restores("after a rejected stream")
    # and with the correct stream it is accepted
    r = repo(w.path)
    r._clean()
    rev = new_revision(r)
    w.img.snap_create(f) if f not in w.img.snaps() else None
    (w.img.dir / "snap" / f).write_bytes(old)
    recs, want, old = build(case, f, f"backy-{rev.uuid}")
    (w.ceph.root / "rawdiff").write_bytes(HEADER + b"".join(recs))
    ok = rbd_source(r).backup(rev)
    check(ok, "a well-formed stream was rejected")
    same("content after applying a well-formed stream", restore_bytes(w.path, rev.uuid, w.d), want)
    return Info(True, label + ["end2end"])


CAMPAIGNS = [
    Campaign("valid", case, run_valid, "well-formed stream with at least two data/zero records that changes the content", batch=25),
    Campaign("mutated", mcase, run_mutated, "malformed stream (every one counts)", batch=25, weight=0.8),
]

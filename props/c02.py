"""C02 A stored revision behaves like an ordinary byte file."""
import io
import os
from pathlib import Path

from hypothesis import strategies as st

from lib import gen
from lib.core import Campaign, Info, Skip, check, pattern, same, short
from lib.world import C4, chunk_content, chunk_files, fast_environment, log, repo

PROP = "C02"
TECHNIQUE = "model-based stateful testing (Hypothesis) of the chunked file against a bytearray model"
LEVEL = "exploration"
NOTE = "random operation sequences (up to ~25) on up to 3 revisions sharing a store, real 4 MiB chunks, files up to ~6 chunks"
ASSUMPTIONS = [
    "operations that the interface refuses by assertion (writing through a read-only handle) only need to fail without effect",
    "holes are punched inside the file only",
]


def worker_init(env):
    fast_environment()


pos = st.one_of(gen.offset(4), gen.offset(2))
op = st.one_of(
    st.tuples(st.just("seek"), st.sampled_from([0, 0, 0, 1, 2]), pos, st.booleans()),
    st.tuples(st.just("write"), gen.kinds, gen.seeds, gen.length),
    st.tuples(st.just("write"), gen.kinds, gen.seeds, gen.length),
    st.tuples(st.just("at"), pos, gen.kinds, gen.seeds, gen.length),
    st.tuples(st.just("at"), pos, gen.kinds, gen.seeds, gen.length),
    st.tuples(st.just("read"), gen.length),
    st.tuples(st.just("readat"), pos, gen.length),
    st.tuples(st.just("readall")),
    st.tuples(st.just("punch"), pos, gen.length),
    st.tuples(st.just("trunc"), st.one_of(st.none(), pos)),
    st.tuples(st.just("flush")),
    st.tuples(st.just("reopen"), st.sampled_from(["rb+", "r+", "rw", "a+", "rb", "wb", "r", "rw"])),
    st.tuples(st.just("copy"), st.booleans()),
    st.tuples(st.just("use"), st.integers(0, 2)),
    st.tuples(st.just("bad"), st.sampled_from(["write", "trunc", "neg", "flush"])),
)
case = st.fixed_dictionaries({
    "flush": st.sampled_from([1, 1, 2, 10]),
    "force": st.booleans(),
    "onestore": st.booleans(),
    "ops": st.lists(op, min_size=2, max_size=25),
})
LIMIT = 7 * C4


class Model:
    def __init__(self):
        self.data = bytearray()
        self.pos = 0

    def extend(self, n):
        if n > len(self.data):
            self.data += bytes(n - len(self.data))

    def write(self, b):
        self.extend(self.pos)
        self.data[self.pos:self.pos + len(b)] = b
        self.pos += len(b)

    def read(self, n=-1):
        b = bytes(self.data[self.pos:] if n == -1 else self.data[self.pos:self.pos + n])
        self.pos += len(b)
        return b


def expect_error(what, f):
    try:
        f()
    except (AssertionError, ValueError, OSError):
        return
    check(False, f"{what} did not fail")


def run_case(case, env):
    from backy.rbd.chunked import File, Store
    d = Path(env.dir())
    labels = set()
    saved = File.flush_target
    File.flush_target = case["flush"]
    shared = []

    def store():
        if case["onestore"] and shared:
            return shared[0]
        s = Store(d / "chunks", log)
        s.force_writes = case["force"]
        shared.append(s)
        return s

    def opened(n, mode):
        return File(d / f"f{n}", store(), mode)

    try:
        files = [[opened(0, "rw"), Model(), "rw"]]
        cur = 0
        reads = 0
        for o in case["ops"]:
            f, m, mode = files[cur]
            k = o[0]
            w = mode not in ("rb", "r")
            r = "r" in mode
            what = f"file {cur} {o}"
            if k in ("write", "at", "punch", "trunc", "flush") and not w or k in ("read", "readat", "readall") and not r:
                continue
            if k == "seek":
                off = gen.off(o[2])
                if o[1] == 0:
                    target = off
                elif o[1] == 1:
                    off = -off if o[3] else off
                    target = m.pos + off
                else:
                    target = len(m.data) - off
                if target > LIMIT or not w and target > len(m.data):
                    continue
                if target < 0:
                    expect_error(what, lambda: f.seek(off, o[1]))
                else:
                    got = f.seek(off, o[1])
                    check(got == target, f"{what}: seek returned {got} instead of {target}")
                    m.extend(target)
                    m.pos = target
            elif k in ("write", "at"):
                if k == "at":
                    t = gen.off(o[1], LIMIT)
                    f.seek(t)
                    m.extend(t)
                    m.pos = t
                kind, seed, n = o[-3:]
                n = min(n, LIMIT - m.pos)
                if n <= 0:
                    continue
                if m.pos > len(m.data):
                    labels.add("write-beyond-end")
                if m.pos % C4 + n > C4:
                    labels.add("write-across-chunks")
                b = pattern(kind, seed, n)
                f.write(b)
                m.write(b)
            elif k in ("read", "readat", "readall"):
                if k == "readat":
                    t = min(gen.off(o[1]), len(m.data))
                    f.seek(t)
                    m.pos = t
                if m.pos > len(m.data):
                    labels.add("read-beyond-end")
                if k == "readall":
                    got, want = f.read(), m.read()
                else:
                    got, want = f.read(o[-1]), m.read(o[-1])
                reads += bool(want)
                same(what, got, want)
            elif k == "punch":
                from backy.utils import punch_hole
                t = gen.off(o[1], len(m.data))
                n = min(o[2], len(m.data) - t)
                if n <= 0:
                    continue
                if m.pos > len(m.data):
                    # (seeking back there afterwards would fill up the file)
                    m.pos = f.seek(len(m.data))
                punch_hole(f, t, n)
                m.data[t:t + n] = bytes(n)
                f.seek(m.pos)
            elif k == "trunc":
                if o[1] is None:
                    t = m.pos
                    f.truncate()
                else:
                    t = gen.off(o[1], LIMIT)
                    f.truncate(t)
                labels.add("shrink" if t < len(m.data) else "grow" if t > len(m.data) else "keep")
                if t > len(m.data):
                    m.extend(t)
                del m.data[t:]
            elif k == "flush":
                f.flush()
            elif k == "reopen":
                f.close()
                f = files[cur][0] = opened(cur, o[1])
                files[cur][2] = o[1]
                m.pos = len(m.data) if "a" in o[1] else 0
                labels.add("reopen")
            elif k == "copy":
                if len(files) >= 3:
                    continue
                f.close()
                n = len(files)
                (d / f"f{n}").write_bytes((d / f"f{cur}").read_bytes())
                files[cur][0] = opened(cur, "rb")
                files[cur][2] = "rb"
                m.pos = 0
                m2 = Model()
                m2.data = bytearray(m.data)
                files.append([opened(n, "rw"), m2, "rw"])
                if o[1]:
                    cur = n
                labels.add("copy")
            elif k == "use":
                cur = o[1] % len(files)
            elif k == "bad":
                if o[1] == "neg":
                    expect_error(what, lambda: f.seek(-1))
                elif not w:
                    if o[1] == "write":
                        expect_error(what, lambda: f.write(b"x"))
                    elif o[1] == "trunc":
                        expect_error(what, lambda: f.truncate(0))
                    else:
                        expect_error(what, lambda: f.flush())
            f, m, mode = files[cur]
            check(f.tell() == m.pos, f"after {what}: position {f.tell()} instead of {m.pos}")
            check(f.size == len(m.data), f"after {what}: size {f.size} instead of {len(m.data)}")
        for f, m, mode in files:
            f.close()
        for i, (f, m, mode) in enumerate(files):
            g = File(d / f"f{i}", Store(d / "chunks", log), "rb")
            same(f"content of file {i} after reopening", g.read(), bytes(m.data))
            check(g.seek(0, io.SEEK_END) == len(m.data), f"size of file {i} after reopening")
            g.close()
        if labels & {"reopen", "copy"}:
            for h, p in chunk_files(d).items():
                ok, _ = chunk_content(p)
                check(ok, f"chunk {h} does not contain what its name says")
    finally:
        File.flush_target = saved
    big = any(len(m.data) > C4 and any(m.data) for _, m, _ in files)
    if big:
        labels.add("multi-chunk")
    return Info(any(any(m.data) for _, m, _ in files) and (big or len(labels) >= 2), labels)


rcase = st.fixed_dictionaries({
    "flush": st.sampled_from([1, 2, 10]),
    "size": gen.image_size(3),
    "init": st.tuples(gen.kinds, gen.seeds),
    "edits": st.lists(st.tuples(gen.offset(3), gen.length, gen.kinds, gen.seeds), min_size=1, max_size=5),
    "trunc": st.one_of(st.none(), gen.offset(3)),
})


def run_parent(case, env):
    """a revision opened as a copy of its parent through the source, parent kept open or not"""
    from backy.rbd.chunked import File
    from lib.world import new_revision, rbd_source
    d = env.dir()
    path = os.path.join(d, "vm")
    saved = File.flush_target
    File.flush_target = case["flush"]
    try:
        r = repo(path)
        a = new_revision(r)
        src = rbd_source(r)
        size = gen.off(case["size"])
        old = pattern(*case["init"], size)
        with src.open(a, "wb") as f:
            f.write(old)
        b = new_revision(r)
        src = rbd_source(r)
        m = Model()
        m.data = bytearray(old)
        with src.open(b, "wb", a) as f:
            for o, n, kind, seed in case["edits"]:
                t = gen.off(o, LIMIT)
                f.seek(t)
                m.extend(t)
                m.pos = t
                data = pattern(kind, seed, min(n, LIMIT - t))
                f.write(data)
                m.write(data)
            if case["trunc"]:
                t = gen.off(case["trunc"], len(m.data))
                f.truncate(t)
                del m.data[t:]
        src = rbd_source(repo(path))
        for rev, want in ((a, old), (b, bytes(m.data)), (a, old)):
            with src.open(rev) as f:
                same(f"revision started as {'original' if rev is a else 'copy'}", f.read(), want)
        if case["trunc"] is None and len(old):
            # opening an existing revision for writing again continues it
            with src.open(b, "r+b", a) as f:
                same("revision reopened for writing", f.read(), bytes(m.data))
    finally:
        File.flush_target = saved
    return Info(any(old) and bytes(m.data) != old)


CAMPAIGNS = [
    Campaign("fileops", case, run_case,
             "random file operations against a bytearray; non-trivial: non-zero data and (more than one chunk or at least two special situations)",
             batch=40),
    Campaign("parent", rcase, run_parent, "non-zero parent and a copy that differs from it", batch=20, weight=0.4),
]

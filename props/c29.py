"""C29 Overwriting and replacing files keeps exactly the intended bytes."""
import io
import os

from hypothesis import strategies as st

from lib import gen
from lib.core import Campaign, Info, check, pattern, same
from lib.fsmon import Counter, Monitor, fork_run
from lib.world import C4, fast_environment, log, quiet_main, repo, tree

PROP = "C29"
TECHNIQUE = "property-based testing with recorded writes and injected file system errors at every point of a replacement"
LEVEL = "exploration"
NOTE = "files up to ~3 blocks of 4 MiB made of identical/changed/zero/partial blocks; replacements with an error at each effect"
ASSUMPTIONS = ["identical regions are judged per aligned 4 MiB block"]


def worker_init(env):
    fast_environment()
    quiet_main()


block = st.tuples(st.sampled_from(["same", "same", "zero", "rand", "one", "tail", "tozero", "fromzero"]), st.integers(0, 7), st.integers(0, C4 - 1))
case = st.fixed_dictionaries({
    "blocks": st.lists(block, max_size=3),
    "source_tail": st.tuples(gen.kinds, gen.seeds, st.one_of(st.just(0), st.integers(0, 5000), st.integers(0, C4 - 1))),
    "target_tail": st.tuples(gen.kinds, gen.seeds, st.one_of(st.just(0), st.integers(0, 5000), st.integers(0, C4 - 1))),
    "cut": st.one_of(st.none(), st.none(), st.integers(0, 3 * C4)),
    "fn": st.sampled_from(["copy_overwrite", "copy_overwrite", "copy"]),
    "nofalloc": st.sampled_from([False, False, True]),
    "source": st.sampled_from(["file", "file", "chunked"]),
})


def contents(case):
    s, t = b"", b""
    for kind, seed, at in case["blocks"]:
        base = pattern(2, seed, C4)
        if kind == "same":
            a = b = base
        elif kind == "zero":
            a = b = bytes(C4)
        elif kind == "rand":
            a, b = base, pattern(2, seed + 100, C4)
        elif kind == "one":
            a = base
            b = base[:at] + bytes([base[at] ^ 1]) + base[at + 1:]
        elif kind == "tail":
            a, b = base, base[:at] + bytes(C4 - at)
        elif kind == "tozero":
            a, b = bytes(C4), base
        else:
            a, b = base, bytes(C4)
        s += a
        t += b
    s += pattern(*case["source_tail"][:2], case["source_tail"][2])
    t += pattern(*case["target_tail"][:2], case["target_tail"][2])
    if case["cut"] is not None:
        t = t[:case["cut"]]
    return s, t


class Raw(io.FileIO):
    """records what is written where"""

    def __init__(self, *a):
        self.writes = []
        super().__init__(*a)

    def write(self, b):
        at = self.tell()
        n = super().write(b)
        self.writes.append((at, n))
        return n


def run_copy(case, env):
    import backy.utils
    d = env.dir()
    s, t = contents(case)
    path = os.path.join(d, "target")
    with open(path, "wb") as f:
        f.write(t)
    real = backy.utils.fallocate
    raw = Raw(path, "r+")
    target = io.BufferedRandom(raw, 65536)

    def fallocate(fd, mode, offset, length):
        if case["nofalloc"]:
            raise OSError(95, "not supported")
        raw.writes.append((offset, length))
        return real(fd, mode, offset, length)

    if case["source"] == "chunked":
        from lib.world import new_revision, rbd_source
        r = repo(os.path.join(d, "vm"))
        rev = new_revision(r)
        src = rbd_source(r)
        with src.open(rev, "wb") as f:
            f.write(s)
        source = src.open(rev)
    else:
        p = os.path.join(d, "source")
        with open(p, "wb") as f:
            f.write(s)
        source = open(p, "rb")
    backy.utils.fallocate = fallocate
    try:
        with source, target:
            n = getattr(backy.utils, case["fn"])(source, target)
    finally:
        backy.utils.fallocate = real
    with open(path, "rb") as f:
        got = f.read()
    same(f"{case['fn']} over {len(t)} bytes", got, s)
    check(n == len(s), f"{case['fn']} reports {n} instead of {len(s)} bytes")
    equal = 0
    if case["fn"] == "copy_overwrite":
        for b in range(0, len(s), C4):
            # the last block may be shorter than what the target had there
            if t[b:b + C4][:len(s[b:b + C4])] == s[b:b + C4]:
                equal += 1
                for at, n in raw.writes:
                    check(at + n <= b or at >= b + len(s[b:b + C4]), f"identical block at {b} of {len(s)} bytes is written: {n} bytes at {at}")
    return Info(s != t and bool(s), [case["fn"], f"{min(equal, 3)} identical blocks", "shrink" if len(s) < len(t) else "grow" if len(s) > len(t) else "same size"])


pcase = st.fixed_dictionaries({
    "size": st.one_of(st.integers(1, 10000), st.integers(1, C4 + 10000)),
    "holes": st.lists(st.tuples(st.integers(0, 2 ** 30), st.one_of(st.integers(1, 300), st.integers(1, 20000), st.integers(1, 2 * C4)), st.booleans()),
                      min_size=1, max_size=5),
    "seed": gen.seeds, "pos": st.integers(0, 10000),
})


def run_punch(case, env):
    import backy.utils
    d = env.dir()
    model = bytearray(pattern(2, case["seed"], case["size"]))
    path = os.path.join(d, "f")
    with open(path, "wb") as f:
        f.write(model)
    real = backy.utils.fallocate

    def refuse(*a):
        raise OSError(95, "not supported")
    try:
        with open(path, "r+b", buffering=0) as f:
            for at, n, ok in case["holes"]:
                at %= case["size"]
                n = min(n, case["size"] - at)
                backy.utils.fallocate = real if ok else refuse
                pos = case["pos"] % (case["size"] + 1)
                f.seek(pos)
                backy.utils.punch_hole(f, at, n)
                model[at:at + n] = bytes(n)
                check(f.tell() == pos, f"punching a hole moves the position from {pos} to {f.tell()}")
                with open(path, "rb") as g:
                    same(f"after zeroing {n} bytes at {at}", g.read(), bytes(model))
        with open(path, "r+b") as f:
            for n in (0, -1):
                try:
                    backy.utils.punch_hole(f, 0, n)
                    check(False, f"zeroing {n} bytes is accepted")
                except (OSError, ValueError):
                    pass
    finally:
        backy.utils.fallocate = real
    with open(path, "rb") as g:
        same("finally", g.read(), bytes(model))
    return Info(True, ["fallback" if not all(h[2] for h in case["holes"]) else "kernel"])


scase = st.fixed_dictionaries({
    "old": st.one_of(st.none(), st.tuples(gen.kinds, gen.seeds, st.integers(0, 200000))),
    "mode": st.sampled_from(["new", "new", "new", "copy", "inplace"]),
    "protect": st.sampled_from([False, False, True]),
    "text": st.sampled_from([False, False, True]),
    "writes": st.lists(st.tuples(st.integers(0, 150000), gen.kinds, gen.seeds, st.one_of(st.integers(0, 100), st.integers(0, 70000))), max_size=3),
    "raise": st.one_of(st.none(), st.none(), st.integers(0, 3)),
    "error": st.sampled_from(["Boom", "Boom", "Stop", "KeyboardInterrupt", "SystemExit", "CancelledError"]),
    # at which effect the file system fails, how, and whether it stays broken
    "fail": st.one_of(st.none(), st.tuples(st.integers(0, 14), st.sampled_from([5, 28, 122]), st.booleans())),
    "kill": st.booleans(),
})


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


def run_safe(case, env):
    from backy.utils import SafeFile
    from asyncio import CancelledError
    error = {"Boom": Boom, "Stop": Stop, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "CancelledError": CancelledError}[case["error"]]
    d = env.dir()
    w = os.path.join(d, "dir")
    os.makedirs(w)
    path = os.path.join(w, "file")
    old = None
    if case["old"]:
        old = pattern(*case["old"])
        with open(path, "wb") as f:
            f.write(old)
        os.chmod(path, 0o440 if case["protect"] else 0o640)
    with open(os.path.join(w, "bystander"), "w") as f:
        f.write("x")
    if case["mode"] == "inplace" and old is None:
        return Info(False)
    want = bytearray(old if old is not None and case["mode"] != "new" else b"")
    pieces = []
    text = case["text"] and case["mode"] == "new"
    for at, k, seed, n in case["writes"]:
        data = pattern(k, seed, n)
        if text:
            data = ("ä" + data.hex()).encode()
            at = len(want)
        else:
            at = min(at, len(want))
        want[at:at + len(data)] = data
        pieces.append((at, data))

    def body():
        with SafeFile(path, encoding="utf-8" if text else None) as f:
            if case["protect"]:
                f.use_write_protection()
            if case["mode"] == "new":
                f.open_new("wb")
            elif case["mode"] == "copy":
                f.open_copy("r+b")
            else:
                f.open_inplace("r+b")
            for i, (at, data) in enumerate(pieces):
                if case["raise"] == i:
                    raise error
                if text:
                    f.write(data.decode())
                else:
                    f.seek(at)
                    f.write(data)
                    check(f.tell() == at + len(data), "position after writing")
            if case["raise"] is not None and case["raise"] >= len(pieces):
                raise error
        return "done"

    fail = case["fail"]

    def child():
        if not fail:
            return body(), False, False
        effects = []
        c = Counter(fail[0], "kill" if case["kill"] else "fail", fail[1], fail[2], log=effects)
        with Monitor(w, c):
            try:
                r = body()
            except (error, OSError) as e:
                r = repr(e)
        # removing the temporary file may be what fails
        return r, c.n > fail[0], any("unlink" in k[0] for k in effects[fail[0]:fail[0] + 1])

    kind, out = fork_run(child)
    left = sorted(os.listdir(w))
    got = open(path, "rb").read() if os.path.exists(path) else None
    names = ["bystander"] + (["file"] if got is not None else [])
    hit = kind == "killed" or (kind == "ok" and out[1])
    done = kind == "ok" and out[0] == "done"
    what = f"{case['mode']} ({'raising' if case['raise'] is not None else 'normal'}, fault {fail if hit else None}): {kind} {out}"
    if kind == "exc":
        check(out[0] == case["error"] and not fail, f"{what}")
    if case["mode"] == "inplace":
        check(left == names, f"{what}: directory contains {left}")
        if done:
            same(what, got, bytes(want))
        return Info(done, ["inplace"])
    if done:
        check(case["raise"] is None, f"{what}: the error is swallowed")
        check(got is not None, f"{what}: the file does not exist")
        same(what, got, bytes(want))
        if case["protect"]:
            check(os.stat(path).st_mode & 0o222 == 0, f"{what}: the file is writable")
    elif kind == "killed":
        check(got == old or got == bytes(want), f"{what}: the file is neither the old nor the new version")
        return Info(True, ["killed"])
    else:
        check(got == old, f"{what}: the old file changed to {got and len(got)} bytes")
    if not (hit and (fail[2] or out[2])):
        check(left == names, f"{what}: directory contains {left}")
    with open(os.path.join(w, "bystander")) as f:
        check(f.read() == "x", "another file changed")
    return Info(bool(pieces), ["done" if done else "failed", "fault" if hit else "no fault"])


CAMPAIGNS = [
    Campaign("copy", case, run_copy, "contents differ", batch=12),
    Campaign("punch", pcase, run_punch, "all", batch=20, weight=0.4),
    Campaign("replace", scase, run_safe, "at least one write", batch=60, weight=0.6),
]

"""What property modules use: Campaign, Violation, Info, helpers."""
import random


class Violation(AssertionError):
    """The property is broken. `key` identifies the call site/history for known findings."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    """The check itself cannot work (never reported as a violation)."""


class Skip(Exception):
    """The case says nothing (not counted)."""


class Info:
    """What a case covered. `nontrivial` by the campaign's rule; labels are counted."""

    def __init__(self, nontrivial=True, labels=(), sample=None):
        self.nontrivial = bool(nontrivial)
        self.labels = list(labels)
        self.sample = sample


class Campaign:
    def __init__(self, name, strategy, run, rule, weight=1.0, batch=40, fixed=(), max_cases=None, case_timeout=100):
        self.name = name
        self.strategy = strategy  # a Hypothesis strategy producing JSON-able cases
        self.run = run  # run(case, env) -> Info; raises Violation
        self.rule = rule
        self.weight = weight
        self.batch = batch
        self.fixed = fixed  # list of cases (or a function returning one) always run first
        self.max_cases = max_cases
        self.case_timeout = case_timeout


def check(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def short(b, n=24):
    if isinstance(b, (bytes, bytearray)):
        return f"<{len(b)} bytes {bytes(b[:n]).hex()}...>" if len(b) > n else f"<{len(b)} bytes {bytes(b).hex()}>"
    s = repr(b)
    return s if len(s) < 300 else s[:300] + "..."


def first_diff(a, b):
    """offset of the first difference of two byte strings"""
    if a == b:
        return None
    n = min(len(a), len(b))
    lo, hi = 0, n
    if a[:n] == b[:n]:
        return n
    while lo < hi:
        mid = (lo + hi) // 2
        if a[lo:mid + 1] != b[lo:mid + 1]:
            hi = mid
        else:
            lo = mid + 1
    return lo


def same(what, got, want):
    """bytes equality with a useful message"""
    if got != want:
        d = first_diff(got, want)
        raise Violation(
            f"{what}: got {len(got)} bytes, expected {len(want)}; first difference at {d}: "
            f"{short(got[d:d + 16])} instead of {short(want[d:d + 16])}")


_cache = {}


def pattern(kind, seed, n):
    """deterministic content: 0 zeros, 1 one byte value, 2 random, 3 short period, 4 mostly zero with islands"""
    key = (kind, seed, n)
    r = _cache.get(key)
    if r is not None:
        return r
    if kind == 0 or n <= 0:
        r = bytes(max(n, 0))
    elif kind == 1:
        r = bytes([seed % 255 + 1]) * n
    elif kind == 2:
        r = random.Random(f"p{seed}").randbytes(n)
    elif kind == 3:
        p = random.Random(f"q{seed}").randbytes(61)
        r = (p * (n // 61 + 1))[:n]
    else:
        b = bytearray(n)
        rr = random.Random(f"s{seed}")
        for _ in range(1 + n // 100000):
            o = rr.randrange(n)
            d = rr.randbytes(min(n - o, 1 + rr.randrange(700)))
            b[o:o + len(d)] = d
        r = bytes(b)
    if len(_cache) > 60:
        _cache.clear()
    _cache[key] = r
    return r

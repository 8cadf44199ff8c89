"""A stand-in for backy-extract, the external restore tool: the context manager puts it on PATH of this process."""
import os
import sys

TOOL = '''#!%s
import fcntl, json, os, signal, sys
mode = os.environ.get("FAKE_EXTRACT", "ok")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "calls"), "a") as f:
    f.write(" ".join(sys.argv[1:2]) + "\\n")
if sys.argv[1:] == ["--version"]:
    if mode == "version-error":
        sys.exit(2)
    print("something-else 1.0" if mode == "version-other" else "backy-extract 1.1.0")
    sys.exit(0)
import lzo
C4 = 4 * 1024 * 1024
src, target = sys.argv[1:]
d = os.path.dirname(src)
lock = open(os.path.join(d, ".purge"), "a+")
fcntl.flock(lock, fcntl.LOCK_SH | fcntl.LOCK_NB)
if mode == "fail-early":
    sys.exit(1)
m = json.load(open(src))
size = m["size"]
if size %% C4:
    sys.exit(1)  # not a multiple of the chunk size
out = os.fdopen(os.dup(1), "wb") if target == "-" else open(target, "wb")
n = size // C4
for i in range(max(n, 1) if mode in ("fail-late", "killed") else n):
    if mode in ("fail-late", "killed") and i == max(n, 1) - 1:
        out.flush()
        if mode == "killed":
            os.kill(os.getpid(), signal.SIGKILL)
        sys.exit(3)
    h = m["mapping"].get(str(i))
    if h is None:
        out.write(bytes(C4))
    else:
        with open(os.path.join(d, "chunks", h[:2], h + ".chunk.lzo"), "rb") as f:
            out.write(lzo.decompress(f.read()))
out.close()
''' % sys.executable


class Extract:
    def __init__(self, d):
        self.d = os.path.join(d, "extract-bin")
        os.mkdir(self.d)
        p = os.path.join(self.d, "backy-extract-stand-in")
        with open(p, "w") as f:
            f.write(TOOL)
        os.chmod(p, 0o755)

    def __enter__(self):
        self.path = os.environ["PATH"]
        os.environ["PATH"] = self.d + ":" + self.path
        return self

    def mode(self, m):
        os.environ["FAKE_EXTRACT"] = m
        p, hidden = os.path.join(self.d, "backy-extract-stand-in"), os.path.join(self.d, "hidden")
        if m == "absent":
            os.rename(p, hidden)
        elif os.path.exists(hidden):
            os.rename(hidden, p)

    def calls(self):
        try:
            return open(os.path.join(self.d, "calls")).read().splitlines()
        except FileNotFoundError:
            return []

    def __exit__(self, *a):
        os.environ["PATH"] = self.path
        os.environ.pop("FAKE_EXTRACT", None)

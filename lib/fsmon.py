"""File system effects of the code under test: observe, fail, or kill at any of them (see shim.c)."""
import collections
import ctypes
import os
import pickle
import signal
import sys
import traceback

from lib.core import HarnessError

_CB = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long)
try:
    _lib = ctypes.CDLL(os.environ["VERIF_SHIM"])
    _global = ctypes.CDLL(None)
    _loaded = hasattr(_global, "shim_loaded")
except (KeyError, OSError):
    _loaded = False


_alive = collections.deque(maxlen=200)  # other threads may still be inside a callback


class Monitor:
    """with Monitor(prefix, fn): fn(kind, phase, path, path2, size) is called for every effect below prefix"""

    def __init__(self, prefix, fn, extra=False):
        self.extra = extra
        if not _loaded:
            raise HarnessError("file system shim is not loaded")
        self.error = None

        def call(kind, phase, a, b, size):
            if kind == b"mkdir" and os.path.isdir(a):
                return 0  # no effect
            try:
                return fn(kind.decode(), phase, os.fsdecode(a), os.fsdecode(b), size) or 0
            except BaseException:
                self.error = self.error or traceback.format_exc()
                return 0

        self.cb = _CB(call)
        _alive.append(self.cb)
        self.prefix = os.path.realpath(prefix)

    def __enter__(self):
        _global.shim_extra(int(self.extra))
        _global.shim_set(self.cb, os.fsencode(self.prefix))
        return self

    def __exit__(self, *exc):
        _global.shim_set(ctypes.cast(None, _CB), b"")
        _global.shim_extra(0)
        if self.error and exc[0] is None:
            raise HarnessError(self.error)


class Counter:
    """numbers the points at which a process can be killed or fail: before each effect, and in the
    middle of each write"""

    def __init__(self, at=None, action="kill", errno=5, persist=False, log=None):
        self.n = 0
        self.at = at
        self.action = action
        self.errno = errno
        self.persist = persist
        self.log = log
        self.half = False

    def __call__(self, kind, phase, a, b, size):
        if phase == 1:
            if self.half:
                os.kill(os.getpid(), signal.SIGKILL)
            return 0
        if kind in ("utime",):
            return 0
        n = self.n
        self.n += 1
        if kind == "write" and self.action == "kill":
            self.n += 1
            if self.at is not None and n + 1 == self.at and size > 1:
                self.half = True
                return 2
        hit = self.at is not None and (n == self.at or (self.persist and n > self.at))
        if self.log is not None:
            self.log.append((kind, a, b, size))
        if not hit:
            return 0
        if self.action == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        return -self.errno if kind != "sync" else 0


def fork_run(fn, timeout=60):
    """run fn() in a forked child -> ("ok", result) | ("exc", (type name, message, traceback)) | ("killed", signal)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, timeout)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("exc", (type(e).__name__, str(e), traceback.format_exc(limit=-8)))
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            code = 77
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return "killed", os.WTERMSIG(st)
    if os.WEXITSTATUS(st):
        raise HarnessError(f"child exited with {os.WEXITSTATUS(st)}")
    return pickle.loads(data)

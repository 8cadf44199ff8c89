"""An asyncio event loop in virtual time, and the daemon's environment in it."""
import asyncio
import datetime
import os
import selectors
import time

import yaml

import backy.utils
from lib.core import HarnessError, Violation
from lib.world import UTC, log

BASE = datetime.datetime(2024, 3, 1, 12, 0, 0, tzinfo=UTC)


class _Selector(selectors.DefaultSelector):
    loop = None
    turns = 0

    def select(self, timeout=None):
        ev = super().select(0)
        if ev:
            return ev
        self.turns += 1
        if self.turns > 5000:
            self.turns = 0
            raise Violation(f"the daemon does not rest: thousands of turns at virtual time {self.loop.vt}")
        if timeout is None:
            raise HarnessError("virtual time loop would wait forever")
        if timeout > 0:
            self.loop.vt += timeout
            self.turns = 0
        return []


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.vt = 0.0
        self.base = BASE
        s = _Selector()
        s.loop = self
        super().__init__(s)
        self.errors = []
        self.set_exception_handler(lambda loop, ctx: self.errors.append(ctx))

    def time(self):
        return self.vt

    def now(self):
        return self.base + datetime.timedelta(seconds=self.vt)

    def run_in_executor(self, executor, func, *args):
        f = self.create_future()
        try:
            f.set_result(func(*args))
        except StopIteration as e:
            f.set_exception(RuntimeError(repr(e)))
        except BaseException as e:
            f.set_exception(e)
        return f

    def run(self, seconds):
        self.run_until_complete(asyncio.sleep(seconds))

    def spin(self, n=30):
        self._selector.turns = 0

        async def turns():
            for _ in range(n):
                await asyncio.sleep(0)
        self.run_until_complete(turns())


class Proc:
    pid = 4711

    def __init__(self, loop, duration, rc, effect, out=b""):
        self.loop, self.duration, self.rc, self.effect, self.out = loop, duration, rc, effect, out
        self.returncode = None
        self.terminated = False
        self.done = None

    async def wait(self):
        if self.done is None:
            self.done = asyncio.ensure_future(self._run())
        return await asyncio.shield(self.done)

    async def _run(self):
        if self.duration:
            await asyncio.sleep(self.duration)
        if not self.terminated and self.effect:
            self.effect()
        self.returncode = -15 if self.terminated else self.rc
        return self.returncode

    stdin = None

    async def communicate(self, data=None):
        self.stdin = data
        await self.wait()
        return self.out, b""

    def terminate(self):
        self.terminated = True

    kill = terminate


class Daemons:
    """virtual time, and subprocesses answered by handler(args) -> (duration, exit code, effect) or raising"""

    def __init__(self, d, handler=None, base=BASE):
        self.d = d
        self.cwd = os.getcwd()
        self.loop = VLoop()
        self.loop.base = base
        asyncio.set_event_loop(self.loop)
        self.saved = backy.utils.now, asyncio.create_subprocess_exec, time.time
        backy.utils.now = self.loop.now
        self.handler = handler
        self.procs = []

        async def create_subprocess_exec(*args, **kw):
            if self.handler is None:
                raise HarnessError(f"unexpected subprocess {args}")
            p = Proc(self.loop, *self.handler([str(a) for a in args]))
            self.procs.append((args, p))
            return p

        asyncio.create_subprocess_exec = create_subprocess_exec

    def config(self, conf, name="backy.conf"):
        p = os.path.join(self.d, name)
        with open(p + ".tmp", "w") as f:
            yaml.safe_dump(conf, f)
        os.rename(p + ".tmp", p)
        return p

    def daemon(self, conf=None, name="backy.conf", start=True):
        from pathlib import Path

        from backy.daemon import BackyDaemon
        if conf is not None:
            self.config(conf, name)
        d = BackyDaemon(Path(self.d) / name, log)
        d.loop = self.loop
        if start:
            d._read_config()
            self.call(d._apply_config)
        return d

    def call(self, fn, *a, **kw):
        """run a synchronous function inside the loop"""
        async def f():
            return fn(*a, **kw)
        return self.loop.run_until_complete(f())

    def wait(self, coro):
        return self.loop.run_until_complete(coro)

    def close(self):
        try:
            tasks = [t for t in asyncio.all_tasks(self.loop) if not t.done()]
            for t in tasks:
                t.cancel()
            if tasks and not self.loop.is_closed():
                for _ in range(20):
                    try:
                        self.loop.run_until_complete(asyncio.gather(*tasks, return_exceptions=True))
                        break
                    except RuntimeError:  # stopped by the code under test
                        continue
        finally:
            backy.utils.now, asyncio.create_subprocess_exec, time.time = self.saved
            if not self.loop.is_closed():
                self.loop.close()
            asyncio.set_event_loop(None)
            os.chdir(self.cwd)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

"""C32 A daemon is alone, obeys signals and ends cleanly."""
import http.client
import json
import os
import re
import signal
import socket
import sys
import time
import traceback

import yaml
from hypothesis import strategies as st

import backy.daemon
from lib import meta
from lib.core import Campaign, Info, check
from lib.world import quiet_main

PROP = "C32"
TECHNIQUE = ("stateful property-based testing with real daemon processes: generated sequences of starts, signals, configurations, triggers and kills against a model of "
             "which daemon runs with which configuration and which backup processes may exist")
LEVEL = "exploration"
NOTE = "real processes in real time, 1-3 jobs, up to 8 steps per case; backup processes and the callback are stand-ins that hang or finish at once"
ASSUMPTIONS = ["`soon` is judged with a limit of 20 s", "backup processes do not ignore being terminated"]
SOON = 20
TOKENS = ["t1", "t2"]
WORKER = r'''#!/bin/bash
kind=callback
for a in "$@"; do case "$a" in backup|gc) kind=$a;; esac; done
dir=@DIR@
hang=-
[ -e $dir/hang-$kind ] && hang=hangs
echo "$$ $kind $hang $*" >> $dir/procs
if [ $hang = hangs ]; then
  read -t 1000 x <> $dir/fifo
  exit 1
fi
if [ $kind = backup ]; then
  for rev; do :; done
  path=
  while [ $# -gt 0 ]; do [ "$1" = -C ] && path=$2; shift; done
  sed 's/^stats: {}/stats: {duration: 1.0}/' "$path/$rev.rev" > "$path/.$rev.tmp" && mv "$path/.$rev.tmp" "$path/$rev.rev"
fi
exit 0
'''


def worker_init(env):
    quiet_main()


conf = st.tuples(st.integers(1, 7), st.integers(0, 1), st.integers(0, 1), st.sampled_from([0, 0, 1]))  # jobs (bits), token, port, interval
BAD = ["yaml", "missing", "schedule", "nosource", "interval", "dir"]
step = st.one_of(
    st.tuples(st.just("second"), st.booleans()),
    st.tuples(st.just("hup"), conf), st.tuples(st.just("hup"), conf), st.tuples(st.just("hup"), conf),
    st.tuples(st.just("hups"), st.lists(conf, min_size=2, max_size=4)),
    st.tuples(st.just("trigger"), st.integers(0, 2)), st.tuples(st.just("trigger"), st.integers(0, 2)),
    st.tuples(st.just("mode"), st.sampled_from(["", "backup", "gc", "callback", "backup"])),
    st.tuples(st.just("end"), st.sampled_from(["TERM", "INT", "QUIT", "bad", "hup+TERM", "TERM+TERM"]), st.sampled_from(BAD)),
    st.tuples(st.just("end"), st.sampled_from(["TERM", "TERM", "INT", "QUIT", "bad"]), st.sampled_from(BAD)),
    st.tuples(st.just("kill"), st.just(0)),
    st.tuples(st.just("race"), conf),
)
case = st.fixed_dictionaries({
    "conf": conf, "mode": st.sampled_from(["backup", "backup", "", "gc", "callback"]), "old": st.integers(0, 7),
    "steps": st.lists(step, min_size=1, max_size=7), "last": st.sampled_from(["TERM", "INT", "QUIT", "bad"]),
})


def alive(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except (FileNotFoundError, ProcessLookupError):
        return False


def wait_for(what, fn, limit=SOON):
    end = time.monotonic() + limit
    while True:
        r = fn()
        if r:
            return r
        check(time.monotonic() < end, lambda: f"{what() if callable(what) else what} (within {limit} s)")
        time.sleep(.03)


class Proc:
    """a daemon process"""

    def __init__(self, sim, conf):
        self.sim = sim
        self.mark = len(sim.procs())
        self.confname = os.path.join(sim.d, "backy.conf")
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                for s in (signal.SIGALRM, signal.SIGINT, signal.SIGTERM, signal.SIGQUIT, signal.SIGHUP):
                    signal.signal(s, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_REAL, 0)
                out = os.open(os.path.join(sim.d, "out"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                os.dup2(out, 1)
                os.dup2(out, 2)
                sys.stdout = os.fdopen(1, "w", closefd=False)
                sys.stderr = os.fdopen(2, "w", closefd=False)
                os.environ["PATH"] = os.path.join(sim.d, "bin") + ":" + os.environ["PATH"]
                os.environ["HOME"] = sim.d
                self.contain()
                sys.argv = ["backy-daemon", "-c", self.confname, "-l", os.path.join(sim.d, "daemon.log")]
                try:
                    backy.daemon.main()
                    code = 0
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        self.status = None

    def contain(self):
        """nothing is deleted by the clean-up loops"""
        import shutil

        import aioshutil

        async def armtree(path, *a, **kw):
            pass
        aioshutil.rmtree = armtree
        shutil.rmtree = lambda *a, **kw: None

    def poll(self):
        if self.status is None:
            pid, st = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                self.status = -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)
        return self.status is not None

    def kill(self, sig):
        if not self.poll():
            os.kill(self.pid, sig)


class Sim:
    def __init__(self, case, env):
        self.case, self.d = case, env.dir()
        self.base = os.path.join(self.d, "base")
        os.makedirs(self.base)
        os.mkdir(os.path.join(self.d, "bin"))
        for n in ("backy-file", "callback"):
            p = os.path.join(self.d, "bin", n)
            with open(p, "w") as f:
                f.write(WORKER.replace("@DIR@", self.d))
            os.chmod(p, 0o755)
        os.mkfifo(os.path.join(self.d, "fifo"))
        open(os.path.join(self.d, "procs"), "w").close()
        self.ports = self.free_ports(2)
        self.daemons = []
        self.cur = None
        self.labels = set()
        self.mode("" if case["mode"] is None else case["mode"])
        for i in range(3):
            if case["old"] >> i & 1:
                # a missed backup: due at once
                import datetime
                now = datetime.datetime.now(datetime.timezone.utc)
                meta.build(os.path.join(self.base, f"vm{i}"), [{"age": 3 * 86400, "tags": ["daily"], "server": "", "trust": "trusted", "complete": True}], now)

    @staticmethod
    def free_ports(n):
        socks, out = [], []
        for _ in range(n):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            socks.append(s)
            out.append(s.getsockname()[1])
        for s in socks:
            s.close()
        return out

    def mode(self, kind):
        for k in ("backup", "gc", "callback"):
            p = os.path.join(self.d, "hang-" + k)
            if k == kind:
                open(p, "w").close()
            elif os.path.exists(p):
                os.unlink(p)

    def names(self, conf):
        return {f"vm{i}" for i in range(3) if conf[0] >> i & 1}

    def write(self, conf, bad=None):
        c = {
            "global": {"base-dir": self.base, "worker-limit": 3, "backup-completed-callback": os.path.join(self.d, "bin", "callback")},
            "api": {"addrs": "127.0.0.1", "port": self.ports[conf[2]], "tokens": {TOKENS[conf[1]]: "client"}, "cli-default": {"token": TOKENS[conf[1]]}},
            "schedules": {"default": {"daily": {"interval": ["1d", "2d"][conf[3]], "keep": 2}}},
            "jobs": {n: {"schedule": "default", "source": {"type": "file", "filename": "/nonexistent"}} for n in self.names(conf)},
        }
        p = os.path.join(self.d, "backy.conf")
        if os.path.isdir(p):
            os.rmdir(p)
        if bad in ("missing", "dir"):
            if os.path.exists(p):
                os.unlink(p)
            if bad == "dir":
                os.mkdir(p)
            return
        if bad == "schedule":
            c["jobs"]["vm9"] = {"schedule": "unknown", "source": {"type": "file", "filename": "/x"}}
        elif bad == "nosource":
            c["jobs"]["vm9"] = {"schedule": "default"}
        elif bad == "interval":
            c["schedules"]["default"]["daily"]["interval"] = "nonsense"
        with open(p + ".new", "w") as f:
            f.write("jobs: [}\n" if bad == "yaml" else yaml.safe_dump(c))
        os.rename(p + ".new", p)

    def procs(self):
        """(pid, kind, arguments) of all processes that daemons have started"""
        with open(os.path.join(self.d, "procs")) as f:
            return [(int(l.split()[0]), l.split()[1], l) for l in f if l.endswith("\n")]

    def mine(self, pid):
        """it is (still) one of the stand-ins of this case"""
        try:
            with open(f"/proc/{pid}/cmdline", "rb") as f:
                return os.fsencode(self.d) in f.read()
        except (FileNotFoundError, ProcessLookupError):
            return False

    def live(self, since=0):
        return [p for p in self.procs()[since:] if alive(p[0]) and self.mine(p[0])]

    def get(self, port, token, path="/v1/status", method="GET"):
        """-> (status, data) or None if nobody answers"""
        c = http.client.HTTPConnection("127.0.0.1", port, timeout=5)
        try:
            c.request(method, path, headers={"Authorization": "Bearer " + token})
            r = c.getresponse()
            body = r.read()
            return r.status, (json.loads(body) if r.status == 200 else None)
        except (ConnectionError, socket.timeout, http.client.HTTPException):
            return None
        finally:
            c.close()

    def log(self):
        try:
            with open(os.path.join(self.d, "out")) as f:
                return f.read()[-1500:]
        except FileNotFoundError:
            return ""

    def status(self, conf):
        r = self.get(self.ports[conf[2]], TOKENS[conf[1]])
        return {s["job"] for s in r[1]} if r and r[0] == 200 else r

    def serving(self, conf, what):
        """the running daemon does what conf says"""
        want = (self.names(conf), 401, None)
        last = []

        def ok():
            check(not self.cur.poll(), lambda: f"{what}: the daemon ended with {self.cur.status}: {self.log()}")
            other = self.get(self.ports[conf[2]], TOKENS[1 - conf[1]])
            last[:] = [(self.status(conf), other and other[0], self.get(self.ports[1 - conf[2]], TOKENS[conf[1]]))]
            return last[0] == want
        wait_for(lambda: f"{what}: status, answer with another token and answer on another port are {last[0]} instead of {want}", ok)

    def start(self, conf, what="start"):
        self.write(conf)
        self.cur = Proc(self, conf)
        self.daemons.append(self.cur)
        self.conf = conf
        self.serving(conf, what)

    def gone(self, d, what, since):
        wait_for(lambda: f"{what}: the daemon still runs", d.poll)
        wait_for(lambda: f"{what}: processes of the daemon go on: {self.live(since)}", lambda: not self.live(since))
        for p in self.ports:
            for t in TOKENS:
                check(self.get(p, t) is None, f"{what}: somebody still answers on the API port")
        n = len(self.procs())
        time.sleep(.02)
        check(len(self.procs()) == n, f"{what}: further processes start: {self.procs()[n:]}")

    def close(self):
        for d in self.daemons:
            d.kill(signal.SIGKILL)
            for _ in range(500):
                if d.poll():
                    break
                time.sleep(.01)
        for pid, *_ in self.live():
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


def run(case, env):
    s = Sim(case, env)
    try:
        return _run(case, s)
    finally:
        s.close()


def _run(case, s):
    s.start(case["conf"])
    steps = [*case["steps"], ("end", case["last"], "yaml")]
    n = 0
    for i, o in enumerate(steps):
        what = f"step {i} {o}"
        k = o[0]
        if s.cur is None and k in ("hup", "hups", "second", "trigger"):
            s.start(o[1] if k == "hup" else s.conf, f"{what}: start")
            s.labels.add("started again")
        if k == "mode":
            s.mode(o[1])
        elif k == "second":
            s.labels.add("second daemon")
            time.sleep(.1)
            before = set(os.listdir(s.base))
            if o[1]:
                # also with another configuration of the same base directory
                s.write([7 - s.conf[0] or 7, 1 - s.conf[1], 1 - s.conf[2], s.conf[3]])
            d = Proc(s, s.conf)
            s.daemons.append(d)
            wait_for(lambda: f"{what}: the second daemon runs, too", d.poll)
            s.write(s.conf)
            check(d.status == 69, f"{what}: the second daemon ends with {d.status}: {s.log()}")
            after = set(os.listdir(s.base))
            check(before == after, f"{what}: the second daemon leaves directories of {sorted(after)} instead of {sorted(before)}")
            s.serving(s.conf, what)
        elif k == "hup":
            old, keep = s.conf, s.live()
            s.write(o[1])
            s.cur.kill(signal.SIGHUP)
            s.conf = o[1]
            s.serving(s.conf, what)
            s.labels.add("reload")
            unchanged = (s.names(old) & s.names(s.conf)) if old[3] == s.conf[3] else set()
            removed = s.names(old) - s.names(s.conf)

            def of(p, names):
                return any(re.search(rf"/{x}/? | {x}$", p[2].rstrip("\n") + " ") for x in names)
            for p in keep:
                if of(p, unchanged) and " hangs " in p[2]:
                    check(alive(p[0]), f"{what}: process {p} of an unchanged job has ended")
                    s.labels.add("process survives a reload")
            wait_for(lambda: f"{what}: processes of removed jobs go on: {[p for p in s.live() if of(p, removed)]}",
                     lambda: not [p for p in s.live() if of(p, removed)])
        elif k == "hups":
            for c in o[1]:
                s.write(c)
                s.cur.kill(signal.SIGHUP)
            s.conf = o[1][-1]
            s.serving(s.conf, what)
            s.labels.add("several reloads at once")
        elif k == "trigger":
            name = sorted(s.names(s.conf))[o[1] % len(s.names(s.conf))]
            end = time.monotonic() + 1
            rests = False
            while not rests and time.monotonic() < end:
                r = s.get(s.ports[s.conf[2]], TOKENS[s.conf[1]])
                rests = bool(r and r[1]) and any(x["job"] == name and x["status"] == "waiting for deadline" for x in r[1])
                time.sleep(.01)
            before = len(s.procs())
            # the API may still be on its way to the last configuration
            r = wait_for(f"{what}: no answer", lambda: s.get(s.ports[s.conf[2]], TOKENS[s.conf[1]], f"/v1/jobs/{name}/run", "POST"))
            check(r is not None and r[0] == 202, f"{what}: the answer is {r}")
            if rests:
                wait_for(lambda: f"{what}: no backup of {name} starts: {s.procs()[before:]}",
                         lambda: any(p[1] == "backup" and f"/{name}" in p[2] for p in s.procs()[before:]))
            s.labels.add("trigger")
        elif k == "kill" and s.cur:
            s.cur.kill(signal.SIGKILL)
            wait_for(f"{what}: the daemon still runs", s.cur.poll)
            for pid, *_ in s.live():
                os.kill(pid, signal.SIGKILL)
            s.cur = None
            s.labels.add("killed")
        elif k == "race":
            if s.cur is not None:
                continue
            s.write(o[1])
            a, b = Proc(s, o[1]), Proc(s, o[1])
            s.daemons += [a, b]
            wait_for(f"{what}: both daemons run", lambda: a.poll() or b.poll())
            d, s.cur = (a, b) if a.poll() else (b, a)
            check(d.status == 69, f"{what}: one of two daemons started together ends with {d.status}: {s.log()}")
            s.conf = o[1]
            s.serving(s.conf, what)
            s.labels.add("two started together")
        elif k == "end" and s.cur:
            if s.live():
                s.labels.add("ended with running processes")
            if o[1] == "bad":
                s.write(s.conf, o[2])
                s.cur.kill(signal.SIGHUP)
                s.gone(s.cur, what, s.cur.mark)
                s.labels.add("invalid configuration")
            else:
                if o[1] == "hup+TERM":
                    s.cur.kill(signal.SIGHUP)
                sig = getattr(signal, "SIG" + o[1].split("+")[-1])
                s.cur.kill(sig)
                if o[1] == "TERM+TERM":
                    s.cur.kill(sig)
                s.gone(s.cur, what, s.cur.mark)
                if o[1] != "TERM+TERM":
                    check(s.cur.status == 0, f"{what}: the daemon ends with {s.cur.status}: {s.log()}")
                s.labels.add(o[1])
            s.cur = None
        n += 1
    return Info(nontrivial=len(s.labels) > 1, labels=sorted(s.labels))


CAMPAIGNS = [
    Campaign("processes", case, run, "at least two different kinds of events", batch=8),
]

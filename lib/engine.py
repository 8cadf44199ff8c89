"""Runs the campaigns of one property in several worker processes, shrinks failures,
writes the evidence file and the replay file. Started by run.py."""
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import time
import traceback

os.environ.pop("LD_PRELOAD", None)  # the file system shim is for this process only
HERE = os.environ["VERIF_HERE"]
SCRATCH = os.environ["VERIF_SCRATCH"]
sys.path[:] = [p for p in sys.path if p != os.path.join(HERE, "lib")]
sys.path.insert(0, HERE)
sys.path.append(os.environ["VERIF_HYPO"])
REPO = os.environ.get("VERIF_REPO", "/repo")

import lib.core as core  # noqa: E402
from lib.core import Campaign, HarnessError, Info, Skip, Violation  # noqa: E402

T0 = time.monotonic()
REAL_TIME = time.monotonic


class CaseTimeout(BaseException):
    pass


class StopShrink(BaseException):
    pass


class Env:
    """per-worker services for cases"""

    def __init__(self, worker):
        self.worker = worker
        self.base = os.path.join(SCRATCH, f"w{worker}")
        os.makedirs(self.base, exist_ok=True)
        self.n = 0
        self.tier = os.environ["VERIF_TIER"]
        self.dirs = []

    def dir(self):
        self.n += 1
        d = os.path.join(self.base, f"c{self.n}")
        os.makedirs(d)
        self.dirs.append(d)
        return d

    def cleanup(self):
        for d in self.dirs:
            for attempt in range(3):
                shutil.rmtree(d, ignore_errors=True)
                if not os.path.exists(d):
                    break
        self.dirs = []


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    try:
        with open(p) as f:
            return {k["key"]: k for k in json.load(f).get("known", []) if k["property"] == prop}
    except FileNotFoundError:
        return {}


def from_repo(tb):
    """the exception was raised by (or below) the code under test"""
    src = os.path.join(os.path.realpath(REPO), "src") + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(src):
            return True
        tb = tb.tb_next
    return False


def execute(camp, case, env, known):
    """-> (status, info/msg/key); status: ok, skip, known, violation, harness"""
    case = json.loads(json.dumps(case))

    def on_alarm(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, camp.case_timeout)
    try:
        try:
            info = camp.run(case, env)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            for p in env_restore:
                p()
            env.cleanup()
        return "ok", info or Info(True)
    except Skip:
        return "skip", None
    except Violation as e:
        if e.key and e.key in known:
            return "known", e.key
        tb = traceback.format_exc(limit=-12)
        return "violation", (str(e), e.key, tb)
    except CaseTimeout:
        return "violation", (f"operation did not end within {camp.case_timeout} s", "timeout", traceback.format_exc(limit=-12))
    except (MemoryError, HarnessError):
        return "harness", traceback.format_exc()
    except OSError as e:
        if e.errno in (28, 12, 24, 23):  # no space/memory/descriptors
            return "harness", traceback.format_exc()
        return "violation", (f"unexpected {type(e).__name__}: {e}", None, traceback.format_exc(limit=-12))
    except Exception as e:
        where = "the code under test" if from_repo(e.__traceback__) else "using the code under test"
        return "violation", (f"unexpected {type(e).__name__} in {where}: {e}", None, traceback.format_exc(limit=-12))


env_restore = []  # functions run after every case (registered by world helpers)


class Harness(Exception):
    pass


class Found(Exception):
    pass


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.seen = set()
        self.labels = {}
        self.samples = []
        self.known = {}
        self.time = 0.0
        self.unreproduced = 0
        self.batches = 0

    def add(self, camp, case, info):
        self.evaluations += 1
        if info.nontrivial:
            h = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()
            self.seen.add(h)
            s = json.dumps(info.sample if info.sample is not None else case)
            if len(self.samples) < 3 and len(s) < 3000:
                self.samples.append(info.sample if info.sample is not None else case)
        for label in info.labels:
            self.labels[label] = self.labels.get(label, 0) + 1


def run_batch(camp, seed, n, deadline, env, stats, known, first=False):
    """n generated cases; returns a failure dict or None"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    st = {"fail": None, "shrink_until": None, "harness": None, "unrep": 0}

    def body(case):
        now = REAL_TIME()
        if st["fail"] is None:
            if now > deadline and stats.evaluations:
                return
        elif now > st["shrink_until"]:
            raise StopShrink()
        status, x = execute(camp, case, env, known)
        if status == "ok":
            if st["fail"] is None:
                stats.add(camp, case, x)
        elif status == "skip":
            stats.skipped += 1
        elif status == "known":
            stats.evaluations += 1
            stats.known[x] = stats.known.get(x, 0) + 1
        elif status == "harness":
            st["harness"] = (x, case)
            raise StopShrink()
        else:
            size = len(json.dumps(case))
            if st["fail"] is None:
                # a failure must be reproducible to count
                again = [execute(camp, case, env, known)[0] for _ in range(2)]
                if "violation" not in again:
                    stats.unreproduced += 1
                    return
                st["shrink_until"] = REAL_TIME() + float(os.environ.get("VERIF_SHRINK", "25"))
                st["fail"] = (size, case, x)
            elif size <= st["fail"][0]:
                st["fail"] = (size, case, x)
            raise Found()

    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False, print_blob=False, verbosity=hypothesis.Verbosity.quiet,
    )(hypothesis.seed(seed)(given(camp.strategy)(body)))
    try:
        test()
    except (Found, StopShrink):
        pass
    except BaseException as e:  # noqa
        if st["fail"] is None and st["harness"] is None:
            if type(e).__name__ in ("Flaky", "FlakyFailure", "FlakyStrategyDefinition"):
                stats.unreproduced += 1
            else:
                st["harness"] = (traceback.format_exc(), None)
    stats.batches += 1
    if st["fail"]:
        size, case, (msg, key, tb) = st["fail"]
        return {"campaign": camp.name, "case": case, "message": msg, "key": key, "traceback": tb, "seed": seed}
    if st["harness"]:
        raise Harness(f"campaign {camp.name}: {st['harness'][0]}\ncase: {json.dumps(st['harness'][1])[:3000]}")
    return None


def worker_main(mod, w, nworkers, seed, budget, outfile):
    env = Env(w)
    out = {"stats": {}, "failure": None, "error": None}
    stats = {c.name: Stats() for c in mod.CAMPAIGNS}
    known = known_findings(mod.PROP)
    deadline = REAL_TIME() + budget
    os.chdir(env.base)

    def flush():
        out["stats"] = {
            n: dict(evaluations=s.evaluations, skipped=s.skipped, seen=sorted(s.seen), labels=s.labels,
                    samples=s.samples, known=s.known, unreproduced=s.unreproduced, time=s.time)
            for n, s in stats.items()}
        tmp = outfile + ".tmp"
        with open(tmp, "w") as f:
            json.dump(out, f)
        os.rename(tmp, outfile)

    try:
        if hasattr(mod, "worker_init"):
            mod.worker_init(env)
        # fixed cases first, dealt out over the workers
        i = 0
        for c in mod.CAMPAIGNS:
            fixed = c.fixed() if callable(c.fixed) else c.fixed
            for case in fixed:
                i += 1
                if i % nworkers != w:
                    continue
                t = REAL_TIME()
                status, x = execute(c, case, env, known)
                if status == "ok":
                    stats[c.name].add(c, case, x)
                elif status == "known":
                    stats[c.name].known[x] = stats[c.name].known.get(x, 0) + 1
                elif status == "harness":
                    raise Harness(f"campaign {c.name} fixed case: {x}\ncase: {json.dumps(case)[:3000]}")
                elif status == "violation":
                    if "violation" in [execute(c, case, env, known)[0] for _ in range(2)]:
                        out["failure"] = {"campaign": c.name, "case": case, "message": x[0], "key": x[1], "traceback": x[2]}
                        return
                    stats[c.name].unreproduced += 1
                stats[c.name].time += REAL_TIME() - t
        camps = [c for c in mod.CAMPAIGNS if c.strategy is not None]
        b = 0
        while camps:
            now = REAL_TIME()
            todo = [c for c in camps if not c.max_cases or stats[c.name].evaluations < max(1, c.max_cases // nworkers)]
            if now > deadline:
                # every campaign runs at least once, however slow the machine is
                todo = [c for c in todo if not stats[c.name].batches]
            if not todo:
                break
            c = min(todo, key=lambda c: (stats[c.name].time / c.weight, (c.name, w)))
            s = int.from_bytes(hashlib.blake2b(f"{seed}/{mod.PROP}/{c.name}/{w}/{b}".encode(), digest_size=6).digest(), "big")
            b += 1
            t = REAL_TIME()
            fail = run_batch(c, s, c.batch, deadline, env, stats[c.name], known)
            stats[c.name].time += REAL_TIME() - t
            if fail:
                out["failure"] = fail
                return
    except Harness as e:
        out["error"] = str(e)
    except BaseException:
        out["error"] = traceback.format_exc()
    finally:
        try:
            env.cleanup()
        except Exception:
            pass
        flush()


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--campaign")
    a = ap.parse_args()
    seed = int(os.environ["VERIF_SEED"])
    tier = os.environ["VERIF_TIER"]
    try:
        mod = importlib.import_module("props." + a.prop.lower())
    except Exception as e:
        # code under test that cannot be imported is broken, but says nothing about this property
        traceback.print_exc()
        print(f"ERROR: cannot load the check: {e}")
        return 3
    import backy
    if not os.path.realpath(backy.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print("ERROR: backy is not imported from", REPO)
        return 3
    if a.campaign:
        mod.CAMPAIGNS = [c for c in mod.CAMPAIGNS if c.name == a.campaign]
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        c = next(c for c in mod.CAMPAIGNS if c.name == r["campaign"])
        env = Env("r")
        os.chdir(env.base)
        if hasattr(mod, "worker_init"):
            mod.worker_init(env)
        status, x = execute(c, r["case"], env, {})
        if status == "violation":
            print(x[0])
            print(x[2])
            print(f"VIOLATION property={mod.PROP} replay={a.replay}")
            return 1
        print(status, x if status != "ok" else "")
        return 0 if status in ("ok", "skip") else 3

    budget = a.budget or float(os.environ.get("VERIF_BUDGET") or 0) or (
        getattr(mod, "QUICK", 30) if tier == "quick" else getattr(mod, "THOROUGH", 900))
    nworkers = a.workers or int(os.environ.get("VERIF_WORKERS") or 0) or min(os.cpu_count() or 4, 8)
    procs = {}
    for w in range(nworkers):
        outfile = os.path.join(SCRATCH, f"out{w}.json")
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.setsid()
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
            try:
                worker_main(mod, w, nworkers, seed, budget, outfile)
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(0)
        procs[pid] = outfile
    results, hard = [], REAL_TIME() + budget + 420
    died = []
    stop = False
    while procs:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if REAL_TIME() > hard or stop:
                for p in procs:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
                if not stop:
                    died.append("a worker did not finish in time")
                for p in procs:
                    os.waitpid(p, 0)
                break
            time.sleep(0.05)
            continue
        f = procs.pop(pid, None)
        if f is None:
            continue
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        if os.path.exists(f):
            with open(f) as fh:
                r = json.load(fh)
            results.append(r)
            if r["failure"]:
                stop = True
        else:
            died.append(f"worker {pid} died with status {status}")
    errors = [r["error"] for r in results if r["error"]] + died
    failure = next((r["failure"] for r in results if r["failure"]), None)
    # merge
    camps = {}
    known = {}
    total = nontriv = 0
    samples = []
    for c in mod.CAMPAIGNS:
        m = dict(evaluations=0, skipped=0, unreproduced=0, cpu_s=0.0, labels={})
        seen = set()
        for r in results:
            s = r["stats"].get(c.name)
            if not s:
                continue
            m["evaluations"] += s["evaluations"]
            m["skipped"] += s["skipped"]
            m["unreproduced"] += s["unreproduced"]
            m["cpu_s"] = round(m["cpu_s"] + s["time"], 1)
            seen.update(s["seen"])
            for k, v in s["labels"].items():
                m["labels"][k] = m["labels"].get(k, 0) + v
            for k, v in s["known"].items():
                known[k] = known.get(k, 0) + v
            for x in s["samples"][:1]:
                if sum(1 for y in samples if y["campaign"] == c.name) < 2:
                    samples.append({"campaign": c.name, "case": x})
        m["distinct_nontrivial"] = len(seen)
        m["rule"] = c.rule
        camps[c.name] = m
        total += m["evaluations"]
        nontriv += len(seen)
    evidence = {
        "property": mod.PROP, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": total, "distinct_nontrivial": nontriv,
            "rule": getattr(mod, "RULE", "") or "; ".join(f"{c.name}: {c.rule}" for c in mod.CAMPAIGNS),
            "samples": samples, "campaigns": camps, "workers": nworkers, "budget_s": budget,
            "known_findings_met": known,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(REAL_TIME() - T0, 2),
        "violations": 1 if failure else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = os.path.join(HERE, "evidence", f"{mod.PROP}.json")
    with open(ev + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.rename(ev + ".tmp", ev)
    print(f"{mod.PROP}: {total} cases, {nontriv} distinct non-trivial, {evidence['wall_s']} s; " + ", ".join(
        f"{n} {m['evaluations']}" for n, m in camps.items()))
    for n, m in camps.items():
        if m["unreproduced"]:
            print(f"note: {m['unreproduced']} unreproduced failures in {n}")
    for k, e in known_findings(mod.PROP).items():
        print(f"KNOWN-FINDING: property={mod.PROP} {e['what']}")
    if failure:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.blake2b(json.dumps(failure["case"], sort_keys=True).encode(), digest_size=5).hexdigest()
        path = os.path.join(d, f"{mod.PROP}-{failure['campaign']}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": mod.PROP, **failure}, f, indent=1)
        print("message:", failure["message"])
        print("case:", json.dumps(failure["case"])[:2000])
        print(failure["traceback"])
        print(f"VIOLATION property={mod.PROP} replay={path}")
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR:", e)
        return 3
    if not nontriv:
        print("ERROR: no non-trivial case was run")
        return 3
    return 0


if __name__ == "__main__":
    # cases and property modules import this very module
    sys.modules["lib.engine"] = sys.modules["__main__"]
    sys.exit(main())

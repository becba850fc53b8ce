"""Recorder: runs the public API of /repo and writes traces for TLC to judge.

A driver module (drivers/<name>.py) has a function cases(tier, rng) yielding
(trace id, thunk); the thunk makes calls into the code under test and returns
a list of events (JSON objects with an "op" field) or a full trace object.
The recorder judges nothing: exceptions, hangs and unusable results become
events, and the specification decides.
"""
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "drivers"))
sys.path.insert(0, REPO)


class Hang(BaseException):
    """Raised by the timer inside code under test."""


class Clock:
    fired = False


def _alarm(signum, frame):
    Clock.fired = True
    raise Hang()


def broken(what):
    return {"op": "broken", "what": str(what)[:200]}


def run_case(thunk, limit):
    Clock.fired = False
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 1.0)
    try:
        try:
            r = thunk()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Hang:
        return [broken("no answer within the time limit")]
    except RecursionError as e:
        return [broken("RecursionError")]
    except MemoryError:
        return [broken("MemoryError")]
    except BaseException as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        at = tb[-1] if tb else None
        where = " at %s:%s" % (os.path.basename(at.filename), at.lineno) if at else ""
        return [broken("unusable result: %s: %s%s" % (type(e).__name__, e, where))]
    if Clock.fired:
        return [broken("no answer within the time limit")]
    return r


def ascii_clean(x):
    """JSON-safe copy; integers TLC cannot hold become a string marker."""
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return int(x) if -2**31 < x < 2**31 else -2**31 + 1
    if isinstance(x, str):
        return x
    if isinstance(x, dict):
        return {str(k): ascii_clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [ascii_clean(v) for v in x]
    raise TypeError("not loggable: %r" % (x,))


def under_test(e):
    """Whether an exception came out of the code under test."""
    import traceback
    repo = os.path.realpath(REPO) + os.sep
    return any(os.path.realpath(f.filename).startswith(repo) for f in traceback.extract_tb(e.__traceback__))


def guarded(cases):
    """The cases; should the code under test fail while they are being made,
    that is a case of its own."""
    it = iter(cases)
    while True:
        try:
            c = next(it)
        except StopIteration:
            return
        except Exception as e:
            if not under_test(e):
                raise
            yield "preparation", lambda: [broken("unusable result: %s: %s" % (type(e).__name__, e))]
            return
        yield c


def worker(name, tier, seed, k, n, out, only, budget):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        driver = importlib.import_module(name)
    except Exception as e:
        if not under_test(e):
            raise
        if k == 0:
            with open(out + ".0", "w") as f:
                f.write(json.dumps({"id": "import", "ops": [broken("unusable: %s: %s" % (type(e).__name__, e))]}) + "\n")
        return
    limit = getattr(driver, "CASE_LIMIT", 20)
    rng = random.Random(seed)
    deadline = time.time() + budget
    hangs = 0
    skipped = 0
    with open(out + ".%d" % k, "w") as f, open(out + ".%d.now" % k, "w") as now:
        for tid, thunk in guarded(driver.cases(tier, rng)):
            if only is not None:
                if tid not in only or k != 0:
                    continue
            elif zlib.crc32(tid.encode()) % n != k:
                continue
            if hangs >= 3 or time.time() > deadline:
                skipped += 1
                continue
            now.seek(0)
            now.truncate()
            now.write(tid)
            now.flush()
            r = run_case(thunk, limit)
            if isinstance(r, dict):
                tr = dict(r)
            else:
                tr = {"ops": r}
            tr["id"] = tid
            if any(e.get("op") == "broken" and "time limit" in e["what"]
                   for e in tr["ops"]):
                hangs += 1
            try:
                line = json.dumps(ascii_clean(tr))
            except BaseException as e:
                line = json.dumps({"id": tid, "ops": [broken("unusable result: %s" % e)]})
            f.write(line + "\n")
            f.flush()
        now.seek(0)
        now.truncate()
        now.write("\0done %d" % skipped)


def main():
    name, tier, seed, out, nproc, budget = sys.argv[1:7]
    only = set(json.loads(sys.argv[7])) if len(sys.argv) > 7 else None
    seed, nproc, budget = int(seed), int(nproc), float(budget)
    os.environ["VERIF_TIER"] = tier
    sys.setrecursionlimit(1000)
    pids = {}
    for k in range(nproc):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                worker(name, tier, seed, k, nproc, out, only, budget)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = k
    hard = time.time() + budget + 90
    failed = {}
    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid:
            k = pids.pop(pid)
            if status:
                failed[k] = "status %d" % status
        elif time.time() > hard:
            for pid, k in list(pids.items()):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                failed[k] = "killed: no answer"
                del pids[pid]
        else:
            time.sleep(0.02)
    traces = 0
    skipped = 0
    with open(out, "w") as f:
        f.write("[")
        for k in range(nproc):
            p = out + ".%d" % k
            if os.path.exists(p):
                for line in open(p):
                    if not line.endswith("\n"):
                        continue
                    f.write((",\n" if traces else "\n") + line.rstrip("\n"))
                    traces += 1
                os.unlink(p)
            now = open(p + ".now").read() if os.path.exists(p + ".now") else ""
            if os.path.exists(p + ".now"):
                os.unlink(p + ".now")
            if now.startswith("\0done"):
                skipped += int(now.split()[1])
            if k in failed and now and not now.startswith("\0done"):
                # the worker died inside a call of the code under test
                t = {"id": now, "ops": [broken("process ended: " + failed[k])]}
                f.write((",\n" if traces else "\n") + json.dumps(t))
                traces += 1
            elif k in failed:
                sys.stderr.write("recorder worker %d failed outside a case: %s\n" % (k, failed[k]))
                sys.exit(3)
        f.write("\n]\n")
    print(json.dumps({"traces": traces, "skipped": skipped}))


if __name__ == "__main__":
    sys.modules["rec"] = sys.modules["__main__"]
    main()

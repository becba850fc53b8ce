#!/usr/bin/env python3
"""./check <property> [--replay FILE]: decide one property.

1. TLC explores the design models listed for the property.
2. The recorder runs /repo and writes traces.
3. TLC judges every trace against the specification.
Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Exit 2: machinery error.
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
CORES = max(1, min(8, os.cpu_count() or 1))

sys.path.insert(0, os.path.join(ROOT, "harness"))
from registry import CHECKS  # noqa: E402


class Machinery(Exception):
    pass


def tlc(module, cfg, work, env=None, heap="6g", limit=600, workers=0, extra=()):
    meta = os.path.join(work, "meta-%s-%d" % (module, time.time_ns()))
    os.makedirs(meta)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
           "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta,
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers or CORES), "-deadlock",
           "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *extra, module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=limit, text=True, errors="replace")
    except subprocess.TimeoutExpired as x:
        late = Machinery("TLC on %s exceeded %d s" % (module, limit))
        late.out = (x.stdout or b"").decode(errors="replace")
        raise late
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.search(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    res = {"rc": p.returncode, "out": out, "wall": time.time() - t0,
           "generated": int(m.group(1)) if m else 0,
           "distinct": int(m.group(2)) if m else 0}
    return res


def write_evidence(pid, tier, seed, cov, wall, violations, assumptions):
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "wall_s": round(wall, 2), "violations": violations,
          "assumptions": assumptions}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def known_findings(pid):
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    r = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == pid and k.get("status") == "unrepaired":
                    r.append(k)
    return r


def shorten(x, n=1500):
    s = json.dumps(x)
    return json.loads(s) if len(s) <= n else s[:n] + "..."


def judge_traces(mod, ts, work, limit, depth=0):
    """TLC's verdict on each trace.  A trace whose values lie outside the
    specification's domain (so TLC cannot even evaluate it) is isolated by
    halving and counts as rejected, unless the specification fails on all."""
    f = os.path.join(work, "judge-%s.json" % mod)
    with open(f, "w") as g:
        json.dump(ts, g)
    fails, late = [], None
    try:
        r = tlc(mod, mod + ".cfg", work, env={"TRACE": f}, limit=limit)
    except Machinery as x:
        late, r = x, {"rc": -1, "out": x.out, "wall": limit, "distinct": 0, "generated": len(ts)}
    for line in r["out"].splitlines():
        m = re.match(r'"FAIL (\d+) (\d+) (.*)"$', line)
        if m:
            fails.append((int(m.group(1)) - 1, int(m.group(2)), m.group(3).replace('\\"', '"')))
    if late:
        # rejections made before time ran out stand
        if not fails:
            raise late
        r["fails"] = fails
        return r
    if r["rc"] == 0 and "No error has been found" in r["out"]:
        n = sum(len(t["ops"]) + 1 for t in ts)
        if not fails and r["distinct"] != n:
            raise Machinery("judge %s: %d states, expected %d" % (mod, r["distinct"], n))
        r["fails"] = fails
        return r
    if "Parsing or semantic analysis failed" in r["out"] or depth > 16:
        raise Machinery("judge %s: TLC rc %d\n%s" % (mod, r["rc"], r["out"][-3000:]))
    if len(ts) == 1:
        if not any(w in r["out"] for w in ("evaluating", "Attempted", "attempted", "TLC encountered")):
            raise Machinery("judge %s: TLC rc %d\n%s" % (mod, r["rc"], r["out"][-3000:]))
        r["fails"] = [(0, 0, "recorded values lie outside the specification's domain: " +
                       " ".join(r["out"][r["out"].find("Error:"):][:400].split()))]
        return r
    # with a rejection already in hand one unjudgeable trace is enough
    k = len(ts) // 2
    a = judge_traces(mod, ts[:k], work, limit, depth + 1)
    if a["fails"]:
        b = {"fails": [], "wall": 0, "distinct": 0, "generated": len(ts) - k}
    else:
        b = judge_traces(mod, ts[k:], work, limit, depth + 1)
    return {"fails": a["fails"] + [(i + k, l, x) for i, l, x in b["fails"]],
            "wall": r["wall"] + a["wall"] + b["wall"],
            "distinct": a["distinct"] + b["distinct"], "generated": a["generated"] + b["generated"]}


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        for f in JARS.split(":") + [PY]:
            if not os.path.exists(f):
                print("missing " + f)
                return 2
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        return subprocess.run(["java", "-version"]).returncode
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    verbose = "-v" in sys.argv
    if "--replay" in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        tier, seed, only = rp["tier"], rp["seed"], [f["id"] for f in rp["failures"]]
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1].split(",,")
    c = CHECKS[pid]
    t0 = time.time()
    work = os.path.join(ROOT, ".work", "%s-%d" % (pid, os.getpid()))
    os.makedirs(work)
    states = transitions = 0
    model_runs = []
    env = {}
    try:
        # -- 1. design models -------------------------------------------------
        for m in c.get("models", []):
            if tier not in m.get("tiers", ("quick", "thorough")) or (only and not m.get("emit")):
                continue
            menv = {"EMIT": "0"}
            if m.get("emit"):
                menv["EMIT"] = "1"
            r = tlc(m["module"], m.get("cfg", m["module"] + ".cfg"), work, env=menv,
                    limit=m.get("limit", 400), extra=m.get("extra", ()))
            if r["rc"] != 0 or "No error has been found" not in r["out"]:
                raise Machinery("design model %s: TLC rc %d\n%s" % (m["module"], r["rc"], r["out"][-3000:]))
            states += r["distinct"]
            transitions += r["generated"]
            model_runs.append({"module": m["module"], "cfg": m.get("cfg", m["module"] + ".cfg"),
                               "distinct_states": r["distinct"], "wall_s": round(r["wall"], 1)})
            if m.get("emit"):
                # behaviours generated by the specification, for the recorder to replay
                f = os.path.join(work, "gen-%s.txt" % m["emit"])
                with open(f, "w") as g:
                    for line in r["out"].splitlines():
                        if line.startswith('"GEN ') and line.endswith('"'):
                            g.write(line[5:-1].replace('\\"', '"').replace("\\\\", "\\") + "\n")
                env["GEN_" + m["emit"]] = f
        # -- 2. record --------------------------------------------------------
        trace = os.path.join(work, "trace.json")
        renv = dict(os.environ)
        renv.update(env)
        renv.update({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": str(seed % 4294967295),
                     "PYTHONPYCACHEPREFIX": os.path.join(work, "nopyc")})
        budget = c.get("budget", {"quick": 60, "thorough": 300})[tier]
        cmd = [PY, "-B", os.path.join(ROOT, "harness", "rec.py"), c["driver"], tier,
               str(seed), trace, str(CORES), str(budget)]
        if only:
            cmd.append(json.dumps(only))
        tr0 = time.time()
        p = subprocess.run(cmd, env=renv, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=budget + 300)
        if p.returncode != 0:
            raise Machinery("recorder: rc %d\n%s" % (p.returncode, p.stderr[-3000:]))
        rec = json.loads(p.stdout.strip().splitlines()[-1])
        record_wall = time.time() - tr0
        # -- 3. judge ---------------------------------------------------------
        if "--keep" in sys.argv:
            shutil.copy(trace, sys.argv[sys.argv.index("--keep") + 1])
        data = json.load(open(trace))
        if not data and not only:
            raise Machinery("no traces recorded")
        judge = c["judge"]
        fails = []
        judge_wall = 0
        events = 0
        groups = {}
        for t in data:
            groups.setdefault(t.pop("spec", judge), []).append(t)
        for mod, ts in sorted(groups.items()):
            r = judge_traces(mod, ts, work, c.get("judge_limit", 500))
            judge_wall += r["wall"]
            states += r["distinct"]
            transitions += r["generated"] - len(ts)
            events += sum(len(t["ops"]) for t in ts)
            for ti, l, clauses in r["fails"]:
                fails.append({"id": ts[ti]["id"], "spec": mod, "event": l, "clauses": clauses,
                              "trace": ts[ti]})
        # -- 4. verdict -------------------------------------------------------
        known = known_findings(pid)
        real, shown = [], set()
        for f in fails:
            for k in known:
                if re.fullmatch(k["trace"], f["id"]) and re.search(k["clauses"], f["clauses"]):
                    if k["what"] not in shown:
                        shown.add(k["what"])
                        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                    break
            else:
                real.append(f)
        allt = [t for ts in groups.values() for t in ts]
        step = max(1, len(allt) // 3)
        cov = {"states": states, "transitions": transitions,
               "traces_validated_against_impl": len(allt) - len({f["id"] for f in fails}),
               "events_replayed": events,
               "skipped_for_time": rec["skipped"],
               "model_runs": model_runs,
               "record_s": round(record_wall, 1), "judge_s": round(judge_wall, 1),
               "samples": [shorten(t) for t in allt[::step][:3]]}
        write_evidence(pid, tier, seed, cov, time.time() - t0, len(real), c.get("assumptions", []))
        if verbose:
            print(json.dumps({k: v for k, v in cov.items() if k != "samples"}))
        if real:
            rdir = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, pid + ".json")
            with open(path, "w") as g:
                json.dump({"property": pid, "tier": tier, "seed": seed,
                           "rerun": "./check %s --replay %s" % (pid, path),
                           "failures": real[:40]}, g, indent=1)
            for f in real[:8 if not verbose else 30]:
                print("failed: trace %s event %d clauses %s" % (f["id"], f["event"], f["clauses"][:300]))
            print("%d failing traces of %d" % (len(real), len(allt)))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("held: property=%s traces=%d events=%d states=%d wall=%.1fs%s" %
              (pid, len(allt), events, states, time.time() - t0,
               " skipped=%d" % rec["skipped"] if rec["skipped"] else ""))
        return 0
    except Machinery as e:
        print("check error: %s" % e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

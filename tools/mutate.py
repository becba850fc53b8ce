#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-j N] [-n PER_FILE] [-s SEED] [FILE ...]: make small
changes to the source of a scratch copy of the repository, one at a time, and
see which check notices.  A change that the repository's own tests notice is
not counted.  Development aid; no check uses it."""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from threading import Lock

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import run  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.Div: [ast.Mult],
       ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.BitXor: [ast.BitOr],
       ast.LShift: [ast.RShift], ast.RShift: [ast.LShift]}


def sites(tree):
    """Yield (description, function making the change in a tree of the same shape)."""
    for i, n in enumerate(ast.walk(tree)):
        line = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    yield line, i, "compare %s->%s" % (type(op).__name__, new.__name__), lambda m, j=j, new=new: m.ops.__setitem__(j, new())
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            if isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            for new in BIN.get(type(n.op), []):
                yield line, i, "operator %s->%s" % (type(n.op).__name__, new.__name__), lambda m, new=new: setattr(m, "op", new())
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1):
                yield line, i, "constant %d->%d" % (n.value, n.value + d), lambda m, d=d: setattr(m, "value", m.value + d)
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield line, i, "constant %s" % (not n.value), lambda m: setattr(m, "value", not m.value)
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for v in (True, False):
                if isinstance(n, ast.While) and (v or isinstance(n.test, ast.Constant)):
                    continue
                yield line, i, "condition %s" % v, lambda m, v=v: setattr(m, "test", ast.Constant(v))
        elif isinstance(n, ast.BoolOp):
            yield line, i, "and/or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())
            for j in range(len(n.values)):
                yield line, i, "drop operand %d" % j, lambda m, j=j: m.values.pop(j)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield line, i, "drop not", lambda m: (setattr(m, "op", ast.Not()), setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand)))
        elif isinstance(n, ast.Call):
            if len(n.args) == 2 and not n.keywords:
                yield line, i, "swap arguments", lambda m: m.args.reverse()
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "set", "dict", "frozenset", "sorted", "reversed", "tuple") and len(n.args) == 1 and not n.keywords:
                yield line, i, "drop %s()" % n.func.id, lambda m: (setattr(m, "func", ast.Lambda(ast.arguments([], [ast.arg("x")], None, [], [], None, []), ast.Name("x", ast.Load()))))
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                yield line, i, "drop copy", lambda m: (setattr(m, "args", [m.func.value]), setattr(m, "func", ast.Lambda(ast.arguments([], [ast.arg("x")], None, [], [], None, []), ast.Name("x", ast.Load()))))
        if hasattr(n, "body") and isinstance(n.body, list):
            for field in ("body", "orelse", "finalbody"):
                for j, s in enumerate(getattr(n, field, [])):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Return, ast.Raise, ast.Break, ast.Continue)):
                        if isinstance(n, (ast.Module, ast.ClassDef)):
                            continue
                        yield s.lineno, i, "drop statement %s" % type(s).__name__, lambda m, j=j, field=field: getattr(m, field).__setitem__(j, ast.Pass())
                    if isinstance(s, (ast.Break, ast.Continue)):
                        yield s.lineno, i, "break/continue", lambda m, j=j, field=field: getattr(m, field).__setitem__(j, ast.Continue() if isinstance(getattr(m, field)[j], ast.Break) else ast.Break())


BIG = """
def _big(*args, t=%d):
    for x in args:
        if isinstance(x, (int, str)) and len(args) > 1:
            continue
        try:
            if (x if isinstance(x, int) else len(x)) >= t:
                return True
            continue
        except Exception:
            pass
        try:
            if max(len(v) for v in vars(x).values() if hasattr(v, "__len__")) >= t:
                return True
        except Exception:
            pass
    return False
"""


def guard(tree, i, fn, t):
    """Make the change only for calls of the enclosing function on something big.
    Returns the changed tree, or None when the place does not allow it."""
    n = list(ast.walk(tree))[i]
    if not isinstance(n, (ast.Compare, ast.BinOp, ast.BoolOp, ast.Constant, ast.Call, ast.UnaryOp, ast.IfExp)):
        return None
    who = None
    for f in ast.walk(tree):      # outermost function first
        if isinstance(f, ast.FunctionDef) and f.args.args and any(n is x for b in f.body for x in ast.walk(b)):
            who = [x.arg for x in f.args.args]
            break
    if not who:
        return None
    new = copy.deepcopy(n)
    fn(new)
    place = ast.IfExp(ast.Call(ast.Name("_big", ast.Load()), [ast.Name(x, ast.Load()) for x in who], []), new, n)
    for p in ast.walk(tree):
        for name, v in ast.iter_fields(p):
            if v is n:
                if isinstance(p, ast.FormattedValue) or name in ("op", "slice") and isinstance(p, ast.Subscript) and not isinstance(n, ast.Constant):
                    return None
                setattr(p, name, place)
                break
            if isinstance(v, list) and any(x is n for x in v):
                v[[x is n for x in v].index(True)] = place
                break
        else:
            continue
        break
    at = 1 if isinstance(tree.body[0], ast.Expr) else 0
    while isinstance(tree.body[at], ast.ImportFrom) and tree.body[at].module == "__future__":
        at += 1
    tree.body[at:at] = ast.parse(BIG % t).body
    return tree


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--big", type=int, default=0)
    ap.add_argument("out")
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-n", type=int, default=40)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("--checks", default="")
    ap.add_argument("--gen", default="/tmp/mut/gen")
    ap.add_argument("--files", nargs="*", default=[])
    a = ap.parse_args()
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    owner = {}
    for p in props:
        for f in p["anchors"]["files"]:
            owner.setdefault(os.path.basename(f), []).append(p["id"])
    for f in owner:      # the property about the calls in general comes last
        owner[f] = [x for x in owner[f] if x != "C47"] + ["C47"]
    files = a.files or sorted(owner)
    rng = random.Random(a.s)
    jobs = []
    for f in files:
        src = open(os.path.join(REPO, "pads", f)).read()
        tree = ast.parse(src)
        main_at = [n.lineno for n in tree.body if isinstance(n, ast.If) and "__main__" in ast.unparse(n.test)]
        S = [(l, i, d, fn) for l, i, d, fn in sites(tree) if not main_at or l < main_at[0]]
        rng.shuffle(S)
        k = len(jobs)
        for l, i, d, fn in S:
            if len(jobs) >= k + a.n:
                break
            t = ast.parse(src)
            try:
                if a.big:
                    t = guard(t, i, fn, a.big)
                    if t is None:
                        continue
                    d += " from size %d" % a.big
                else:
                    fn(list(ast.walk(t))[i])
                new = ast.unparse(ast.fix_missing_locations(t))
                compile(new, f, "exec")
            except Exception:
                continue
            jobs.append((f, l, d, new, src.splitlines()[l - 1].strip() if l else ""))
    print(len(jobs), "mutants", flush=True)
    lock, gens, base = Lock(), {}, {}
    out = open(a.out, "a")
    os.makedirs(a.gen, exist_ok=True)

    def prepare(pid):
        """Behaviours from the models, and the traces of the unchanged code."""
        if pid in base:
            return
        c, env = run.CHECKS[pid], {}
        for m in c.get("models", []):
            if not m.get("emit") or "quick" not in m.get("tiers", ("quick",)):
                continue
            g = os.path.join(a.gen, "gen-%s-%s.txt" % (m["module"], m["emit"]))
            env["GEN_" + m["emit"]] = g
            if not os.path.exists(g):
                r = run.tlc(m["module"], m.get("cfg", m["module"] + ".cfg"), a.gen, env={"EMIT": "1"}, limit=600, extra=m.get("extra", ()))
                with open(g, "w") as h:
                    for line in r["out"].splitlines():
                        if line.startswith('"GEN ') and line.endswith('"'):
                            h.write(line[5:-1].replace('\\"', '"').replace("\\\\", "\\") + "\n")
        gens[pid] = env
        base[pid] = record(pid, REPO, os.path.join(a.gen, "base"))[0]

    def record(pid, repo, work):
        os.makedirs(work, exist_ok=True)
        c = run.CHECKS[pid]
        env = dict(os.environ, VERIF_REPO=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="1", **gens[pid])
        t = os.path.join(work, "t-%s.json" % pid)
        budget = c.get("budget", {"quick": 60})["quick"]
        p = subprocess.run([run.PY, "-B", os.path.join(ROOT, "harness", "rec.py"), c["driver"], "quick", "1", t, "2", str(budget * 3)],
                           env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if p.returncode:
            return None, p.stderr[-1500:]
        s = open(t).read()
        os.unlink(t)
        return s, ""

    def one(k):
        f, l, d, new, text = jobs[k]
        w = "/tmp/mut/w%d" % k
        os.makedirs(w)
        res = {"file": f, "line": l, "change": d, "text": text}
        try:
            for x in ("pads", "tests"):
                shutil.copytree(os.path.join(REPO, x), os.path.join(w, x), ignore=shutil.ignore_patterns("__pycache__"))
            for x in os.listdir(REPO):
                if os.path.isfile(os.path.join(REPO, x)):
                    shutil.copy(os.path.join(REPO, x), w)
            open(os.path.join(w, "pads", f), "w").write(new)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
            try:
                p = subprocess.run([run.PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=w, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
                res["status"] = "tests" if p.returncode else None
            except subprocess.TimeoutExpired:
                res["status"] = "tests"
            if not res["status"]:
                res["status"], seen = "survived", []
                for pid in (a.checks.split(",") if a.checks else owner.get(f, ["C47"])):
                    with lock:
                        prepare(pid)
                    s, err = record(pid, w, os.path.join(w, "work"))
                    if s is None:
                        res["status"], res["err"] = "error " + pid, err
                        break
                    if s == base[pid]:
                        seen.append(pid + " same")
                        continue
                    groups = {}
                    for t in json.loads(s):
                        groups.setdefault(t.pop("spec", run.CHECKS[pid]["judge"]), []).append(t)
                    run.CORES = 2
                    try:
                        bad = []
                        for mod, ts in sorted(groups.items()):
                            bad += run.judge_traces(mod, ts, os.path.join(w, "work"), 600)["fails"]
                    except run.Machinery as e:
                        res["status"], res["err"] = "error " + pid, str(e)[-1500:]
                        break
                    if bad:
                        res["status"], res["clauses"] = "killed " + pid, bad[0][2][:200]
                        break
                    seen.append(pid + " held")
                res["seen"] = seen
        except Exception as e:
            res["status"], res["err"] = "error", repr(e)
        finally:
            shutil.rmtree(w, ignore_errors=True)
        if res["status"] == "survived":
            res["source"] = new if False else None
        with lock:
            out.write(json.dumps(res) + "\n")
            out.flush()

    with ThreadPoolExecutor(a.j) as ex:
        list(ex.map(one, range(len(jobs))))


if __name__ == "__main__":
    main()

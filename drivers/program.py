"""Runs of the command-line program; what it wrote is cut into grids and the report."""
import os
import re
import subprocess
import sys
from graphlib import *
import sudokulib as S
from sudoku_ import reading, rearrangement

REPO = os.environ.get("VERIF_REPO", "/repo")
NONE = dict(t=False, b=False, u=False, both=False, g=False, a=False, p=False, zero=False, wrong=False)


def run(args, text):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO)
    return subprocess.run([sys.executable, "-m", "pads.sudoku"] + args, input=text, capture_output=True, text=True, cwd=REPO, env=env, timeout=100)


def grids(fmt, out):
    if fmt == "text":
        parts = [m.group(0) for m in re.finditer(r"^ -{20,} *\n(?:\|.*\n)+ -{20,} *$", out, re.M)]
    elif fmt == "numeric":
        parts = [m.group(0) for m in re.finditer(r"(?:^[0-9]{9}\n){9}", out, re.M)]
    elif fmt == "html":
        parts = re.split(r"(?=<table border=1>)", out)[1:]
    else:
        parts = re.split(r"(?=<svg\b)", out)[1:]
    return [reading(fmt, p) for p in parts]


def apart(fmt, out):
    """Is there an empty line after the first grid and before the second?"""
    if fmt == "text":
        return re.search(r"-\s*\n\s*\n+ -{20,}", out) is not None
    if fmt == "numeric":
        return re.match(r"\s*(?:[0-9]{9}\n){9}\s*\n", out) is not None
    return True


def report(out):
    m = re.search(r"Rules used:(.*)", out)
    rules = [x.strip() for x in m.group(1).split(",") if x.strip()] if m else []
    m = re.search(r"Number of solutions: (\d+)", out)
    count = int(m.group(1)) if m else -1
    m = re.search(r"Level: (\w+)", out)
    return rules, count, m.group(1) if m else ""


MARKS = {"dots": ".", "zeros": "0", "usual": ".0", "marks": "x", "several": "x*_"}


def written(puzzle, how, rng):
    """The puzzle as text; cells of several marks or lines in between do not matter."""
    s = "".join(str(d) if d else rng.choice(MARKS[how]) for d in puzzle)
    if rng.random() < .5:
        s = "\n".join(s[i:i + 9] for i in range(0, 81, 9)) + "\n"
    if rng.random() < .3:
        s = s.replace("\n", " |\n-----\n")
    return s, ["-x", MARKS[how]] if how in ("marks", "several") else []


def running(puzzle, o, fmt="text", how="dots", extra=(), seed=0):
    rng = __import__("random").Random(seed)
    opts = dict(NONE, **o)
    flags = []
    for k, f in (("t", "-t"), ("b", "-b"), ("u", "-u"), ("both", "-2"), ("g", "-g"), ("a", "-a"), ("p", "-p"), ("zero", "-0")):
        if opts[k]:
            flags.append(f)
    text, x = written(puzzle or [0] * 81, how, rng)
    flags += x + list(extra)
    if fmt != "text" or rng.random() < .3:
        flags += ["-f", fmt if rng.random() < .7 else fmt.upper()]
    if opts["wrong"]:
        flags = [f for f in flags if f not in ("-f",)] if rng.random() < .5 else flags
        flags = [f for f in flags if f.lower() not in ("text", "numeric", "html", "svg", "-f")] + (["-f", "plain"] if rng.random() < .5 else ["surplus"])
    rng.shuffle(flags) if not any(f in flags for f in ("-f", "-x")) else None
    r = run(flags, text)
    shown = grids(fmt, r.stdout)
    rules, count, level = report(r.stdout)
    e = {"op": "ran", "opts": opts, "status": abs(r.returncode), "shown": shown, "rules": rules, "count": count, "level": level,
         "report": fmt in ("text", "numeric") and not opts["zero"] and not opts["wrong"], "apart": apart(fmt, r.stdout) if opts["both"] and len(shown) > 1 else True,
         "found": False, "rows": [], "cols": [], "digits": [], "flip": False}
    of = puzzle
    if (opts["g"] or opts["p"]) and not opts["wrong"] and not opts["zero"]:
        of = shown[0] if shown and len(shown[0]) == 81 else [0] * 81
        if opts["p"] and not opts["g"]:
            a, b = S.search(puzzle, 2, 6000), S.search(of, 2, 6000)
            if a and b and len(a[0]) == 1 and len(b[0]) == 1:
                m = rearrangement((puzzle, a[0][0]), (of, b[0][0]))
                if m:
                    e.update(m, found=True)
    h = S.search(of or [0] * 81, 60, 8000) if of else None
    if h is None and not (opts["wrong"] or opts["zero"]):
        return {"n": 81, "puzzle": [1] * 81, "orig": [1] * 81, "hints": [], "ops": [{"op": "broken", "what": "puzzle with very many solutions"}]}
    h = h or ([], [])
    if opts["wrong"] or opts["zero"]:
        of, h = [1] * 81, ([], [])
    return {"n": 81, "puzzle": list(of), "orig": list(puzzle or of), "hints": h[1], "flags": " ".join(flags), "ops": [e]}


def levels(puzzles):
    ops = []
    for p in puzzles:
        r = run(["-f", "numeric"], "".join(map(str, p)))
        rules, count, level = report(r.stdout)
        if level and level != "impossible":
            ops.append({"op": "level", "rules": rules, "level": level})
    return {"n": 81, "puzzle": [1] * 81, "orig": [1] * 81, "hints": [], "ops": ops}


def cases(tier, rng):
    big = tier == "thorough"
    f = 4 if big else 1
    easy = [S.minimal(rng, keep=rng.choice([10, 20, 30])) for _ in range(12)]
    pool = easy + [S.minimal(rng) for _ in range(12 * f)] + [S.minimal(rng, symmetric=True) for _ in range(4 * f)]
    hard = [h for h in S.HARD if S.search(h, 20, 1600) is not None]
    several, none = [], []
    for p in pool:
        q = list(p)
        for c in rng.sample([c for c in range(81) if q[c]], rng.randint(1, 3)):
            q[c] = 0
        r = S.search(q, 14, 900)
        if r and len(r[0]) > 1:
            several.append(q)
        q = list(p)
        c = rng.choice([c for c in range(81) if not q[c]])
        ds = [d for d in range(1, 10) if all(q[x] != d for x in S.PEERS[c])]
        ds = [d for d in ds if not S.search(q[:c] + [d] + q[c + 1:], 4, 2000)[0]]
        if ds:
            q[c] = rng.choice(ds)
            none.append(q)
    opts = list(generated("programs"))
    fmts = ("text", "numeric", "html", "svg")
    hows = tuple(MARKS)
    for k, o in enumerate(opts):
        text = o.pop("text")
        for j in range(2 * f):
            p = rng.choice(pool + hard)
            fmt = rng.choice(fmts[:2] if text else fmts[2:])
            yield "options-%d-%d" % (k, j), lambda p=p, o=o, fmt=fmt, how=rng.choice(hows), s=rng.getrandbits(30), x=["-s"] if j % 2 else []: running(p, o, fmt, how, x, s)
    for k, p in enumerate(several):
        o = dict(b=k % 3 != 0, u=True, both=k % 2 == 0)
        yield "several-%d" % k, lambda p=p, o=o, fmt=rng.choice(fmts), s=rng.getrandbits(30): running(p, o, fmt, "dots", [], s)
    for k, p in enumerate(none):
        o = dict(b=k % 2 == 0, u=k % 3 == 0, both=k % 4 == 1, t=k % 5 == 4)
        yield "none-%d" % k, lambda p=p, o=o, fmt=fmts[k % 2], s=rng.getrandbits(30): running(p, o, fmt, "zeros", [], s)
    for k, p in enumerate(pool[-12 * f:]):
        o = dict(p=True, a=k % 2 == 0, t=k % 3 == 0, both=k % 3 != 0, b=k % 4 == 1)
        yield "rearranged-%d" % k, lambda p=p, o=o, fmt=rng.choice(fmts), s=rng.getrandbits(30): running(p, o, fmt, "dots", [], s)
    for k in range(8 * f):
        o = dict(g=True, a=k % 2 == 0, both=k % 3 == 0, b=k % 4 == 0)
        yield "generated-%d" % k, lambda o=o, fmt=fmts[k % 4], s=rng.getrandbits(30): running(None, o, fmt, "dots", [], s)
    yield "levels-easy", lambda: levels(easy)
    for k in range(3 * f):
        yield "levels-%d" % k, lambda ps=rng.sample(pool + hard, min(24, len(pool))): levels(ps)

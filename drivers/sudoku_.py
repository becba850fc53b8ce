import io
import re
import contextlib
import sys
from graphlib import *
import sudokulib as S


def state(g):
    can = [0] * 81
    for c in range(81):
        for d in g.choices(c):
            can[c] |= 1 << (d - 1)
    return {"grid": list(g), "can": can}


def header(puzzle, unique=False, limit=40, steps=3000):
    r = S.search(puzzle, limit, steps)
    if r is None:
        return None
    return {"n": 81, "puzzle": list(puzzle), "hints": r[1], "unique": unique, "ops": []}, r[0]


class Rules:
    """Only some of the rules take part, in their usual order."""
    NEEDS = {"repeat": "bivalue", "path": "bivalue", "conflict": "bivalue"}

    def __init__(self, M, keep):
        self.M, self.keep = M, keep

    def __enter__(self):
        self.old = getattr(self.M, "rules", None)
        try:
            some = [r for r in self.old if r[0] in self.keep]
        except Exception:       # all rules take part
            self.keep = None
            return
        self.M.rules = some

    def __exit__(self, *x):
        if self.keep:
            self.M.rules = self.old


def given(puzzle, form):
    if form == "pairs":
        return [(d, c) for c, d in enumerate(puzzle) if d]
    if form == "text":
        return "".join(map(str, puzzle))
    return list(puzzle)


def make(M, puzzle, form, ops):
    try:
        g = M.Sudoku(given(puzzle, form))
    except M.BadSudoku:
        ops.append({"op": "bad"})
        return None
    ops.append(dict(op="made", **state(g)))
    return g


def solving(puzzle, unique=False, twosat=False, quick=False, keep=None, form="list", verbose=False, limit=200):
    h = header(puzzle)
    if h is None:
        return None
    tr, sols = h
    tr["unique"] = unique
    ops = tr["ops"]
    try:
        from pads import sudoku as M
        g = make(M, puzzle, form, ops)
        if g is None:
            return tr
        g.assume_unique, g.twosat = unique, twosat
        if verbose:
            g.logstream = io.StringIO()
        with Rules(M, keep):
            for _ in range(limit):
                try:
                    r = M.step(g, quick)
                except M.BadSudoku:
                    ops.append({"op": "bad"})
                    break
                ops.append(dict(op="step", r=bool(r), **state(g)))
                if not r:
                    ops.append({"op": "complete", "r": bool(g.complete())})
                    break
    except Exception as e:
        ops.append(raised(e))
    return tr


def enumerating(puzzle, fast, form="list", verbose=False):
    h = header(puzzle)
    if h is None:
        return None
    tr, sols = h
    ops = tr["ops"]
    try:
        from pads import sudoku as M
        g = make(M, puzzle, form, ops)
        if g is None:
            return tr
        if verbose:
            g.logstream = io.StringIO()
        out = []
        for s in M.all_solutions(g, fast):
            out.append(list(s))
            if len(out) > 60:
                break
        ops.append({"op": "all", "r": out})
        ops.append({"op": "unisolvent", "r": bool(M.unisolvent(M.Sudoku(given(puzzle, form))))})
    except Exception as e:
        ops.append(raised(e))
    return tr


def clashing(d, c, p):
    """Two equal clues that see each other, in this order."""
    puzzle = [0] * 81
    puzzle[c] = puzzle[p] = d
    tr = {"n": 81, "puzzle": puzzle, "hints": [], "unique": False, "ops": []}
    try:
        from pads import sudoku as M
        try:
            g = M.Sudoku([(d, c), (d, p)])
            tr["ops"].append(dict(op="made", **state(g)))
        except M.BadSudoku:
            tr["ops"].append({"op": "bad"})
    except Exception as e:
        tr["ops"].append(raised(e))
    return tr


def printed(M, fmt, g):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        M.output_formats[fmt](g)
    return out.getvalue()


def reading(fmt, text):
    """The 81 entries shown by an output, in order of rows."""
    if fmt in ("text", "numeric"):
        return [0 if ch in ".0" else int(ch) for ch in re.findall(r"[0-9.]", text)]
    if fmt == "svg":
        g = [0] * 81
        for m in re.finditer(r"<text[^>]*>\s*([^<]*?)\s*</text>", text):
            x, y = (float(re.search(r'\b%s="([-0-9.]+)' % a, m.group(0)).group(1)) for a in "xy")
            g[9 * int((y - 2) // 30) + int((x - 2) // 30)] = int(m.group(1))
        return g
    cells = [int(m.group(1)) if m.group(1) else 0 for m in re.finditer(r"<td width[^>]*>(?:([0-9])</td>|<input)", text)]
    if len(cells) != 81:
        return cells
    g = [0] * 81
    for k, v in enumerate(cells):
        a, b, c, d = k // 27, k // 9 % 3, k // 3 % 3, k % 3
        g[9 * (3 * a + c) + 3 * b + d] = v
    return g


def showing(puzzle, solved=False):
    tr, sols = header(puzzle)
    ops = tr["ops"]
    try:
        from pads import sudoku as M
        g = make(M, puzzle, "list", ops)
        if g is None:
            return tr
        for fmt in ("text", "numeric", "html", "svg"):
            text = printed(M, fmt, g)
            ops.append({"op": "printed", "r": reading(fmt, text), "of": list(puzzle)})
            if fmt in ("text", "numeric"):
                for empty in (".0", None):
                    t = text if empty else text.replace("." if fmt == "text" else "0", "x")
                    old, sys.stdin = sys.stdin, io.StringIO(t)
                    try:
                        back = M.read_puzzle(".0" if empty else "x")
                    finally:
                        sys.stdin = old
                    ops.append({"op": "read", "r": list(back)})
    except Exception as e:
        ops.append(raised(e))
    return tr


def rearrangement(old, new):
    """Rows, columns, digits and reflection taking one complete grid to another and one puzzle to another."""
    (p, s), (q, t) = old, new
    from itertools import permutations as perms
    bands = [[3 * a + i for a in o for i in w[a]] for o in perms(range(3)) for w in
             [{0: x, 1: y, 2: z} for x in perms(range(3)) for y in perms(range(3)) for z in perms(range(3))]]
    for flip in (False, True):
        T = [[t[9 * c + r] if flip else t[9 * r + c] for c in range(9)] for r in range(9)]
        cols = [tuple(T[r][c] for r in range(9)) for c in range(9)]
        scol = [[s[9 * r + c] for r in range(9)] for c in range(9)]
        for rows in bands:          # old row r goes to rows[r]
            for c0 in range(9):
                dig = {scol[0][r]: cols[c0][rows[r]] for r in range(9)}
                to = []
                for c in range(9):
                    img = [0] * 9
                    for r in range(9):
                        img[rows[r]] = dig[scol[c][r]]
                    img = tuple(img)
                    if img not in cols:
                        break
                    to.append(cols.index(img))
                else:
                    e = {"rows": [x + 1 for x in rows], "cols": [x + 1 for x in to], "digits": [dig[d] for d in range(1, 10)], "flip": flip}
                    ok = True
                    for c in range(81):
                        r, k = rows[c // 9], to[c % 9]
                        x = 9 * k + r if flip else 9 * r + k
                        ok = ok and q[x] == (dig[p[c]] if p[c] else 0)
                    if ok:
                        return e
    return None


def moving(puzzle, keep, seed):
    tr, sols = header(puzzle)
    ops = tr["ops"]
    try:
        from pads import sudoku as M
        import random
        g = make(M, puzzle, "list", ops)
        random.seed(seed)
        q = list(M.permute(g, keep))
        r = S.search(q, 2, 6000)
        e = rearrangement((puzzle, sols[0]), (q, r[0][0])) if r and len(r[0]) == 1 and len(sols) == 1 else None
        e = dict(e, found=True) if e else {"found": False, "rows": [], "cols": [], "digits": [], "flip": False}
        ops.append(dict(e, op="move", r=q, keep=keep))
        ops.append(dict(op="made", **state(g)))
    except Exception as x:
        ops.append(raised(x))
    return tr


def generating(symmetric, seed):
    try:
        from pads import sudoku as M
        import random
        random.seed(seed)
        g = M.random_puzzle(symmetric)
        h = header(list(g), limit=200, steps=20000)
        if h is None:
            return {"n": 81, "puzzle": [0] * 81, "hints": [], "unique": False, "ops": [{"op": "broken", "what": "generated puzzle has very many solutions"}]}
        tr = h[0]
        tr["ops"] += [dict(op="made", **state(g)), {"op": "generated", "symmetric": symmetric}]
        return tr
    except Exception as e:
        return {"n": 81, "puzzle": [1] * 81, "hints": [], "unique": False, "ops": [raised(e)]}


ORDER = ["locate", "eliminate", "align", "pair", "triad", "trapezoid", "rectangle", "subproblem", "nishio", "bilocal", "bivalue", "repeat", "path", "conflict", "twosat"]


def cases(tier, rng):
    big = tier == "thorough"
    f = 5 if big else 1
    hard = [h for h in S.HARD if S.search(h, 20, 3000 if big else 1600) is not None]
    pool = [S.minimal(rng, keep=rng.choice([0, 0, 0, 1, 2, 4, 10])) for _ in range(16 * f)] + [S.minimal(rng, symmetric=True) for _ in range(4 * f)]
    for k, p in enumerate(hard + pool):
        yield "unique-%d" % k, lambda p=p, v=k % 2 == 0: solving(p, True, True, verbose=v)
        yield "plain-%d" % k, lambda p=p, v=k % 2 == 1, fm=["list", "text", "pairs"][k % 3]: solving(p, form=fm, verbose=v)
        for j in range(3):
            keep = {"locate", "eliminate"} | {r for r in ORDER if rng.random() < .5} | {"pair", "bilocal", "bivalue"} if rng.random() < .6 else \
                   {"locate", "eliminate", rng.choice(ORDER), rng.choice(ORDER)}
            if keep & {"repeat", "path", "conflict"}:
                keep |= {"pair", "bilocal", "bivalue"}
            u = rng.random() < .6
            yield "some-%d-%d" % (k, j), lambda p=p, u=u, keep=keep: solving(p, u, True, keep=keep)
        yield "quick-%d" % k, lambda p=p: solving(p, quick=True)
    for c in range(81):
        for p in range(81):
            if c != p and (c // 9 == p // 9 or c % 9 == p % 9 or (c // 27, c % 9 // 3) == (p // 27, p % 9 // 3)):
                yield "clash-%d-%d" % (c, p), lambda c=c, p=p: clashing(1 + (c + p) % 9, c, p)
    for rule, ps in sorted(S.by_rule().items()):
        keep = {"locate", "eliminate", rule}
        if rule in ("bilocal", "repeat", "path", "conflict"):
            keep |= {"pair", "bilocal", "bivalue"}
        n = {"trapezoid": 25, "rectangle": 25}.get(rule, 8)
        for k, p in enumerate(ps if big else rng.sample(ps, n)):
            yield "%s-%d" % (rule, k), lambda p=p, keep=keep, v=k % 2 == 0: solving(p, True, True, keep=keep, verbose=v)
    several, none = [], []
    for p in pool:
        full = S.search(p)[0][0]
        for _ in range(4):
            q = list(p)
            for c in rng.sample([c for c in range(81) if q[c]], rng.randint(1, 3)):
                q[c] = 0
            r = S.search(q, 14, 900)
            if r and len(r[0]) > 1:
                several.append(q)
                break
        q = list(p)
        c = rng.choice([c for c in range(81) if not q[c]])
        ds = [d for d in range(1, 10) if d != full[c] and all(q[x] != d for x in S.PEERS[c])]
        if ds:
            q[c] = rng.choice(ds)
            none.append(q)
    # many solutions that differ in exchangeable corners
    for _ in range(8 * f):
        full = S.filled(rng)
        a, b = rng.sample(range(1, 10), 2)
        q = [0 if d in (a, b) else d for d in full]
        for c in rng.sample(range(81), 20):
            q[c] = 0 if rng.random() < .5 else full[c]
        r = S.search(q, 16, 1200)
        if r and r[0]:
            several.append(q)
    for k, p in enumerate(several):
        yield "several-%d" % k, lambda p=p, v=k % 3 == 0: solving(p, verbose=v, twosat=True)
        yield "several-all-%d" % k, lambda p=p, k=k: enumerating(p, k % 2 == 0, verbose=k % 3 == 1)
        keep = {"locate", "eliminate"} | {r for r in ORDER if rng.random() < .6} | {"pair", "bilocal", "bivalue"}
        yield "several-some-%d" % k, lambda p=p, keep=keep: solving(p, keep=keep, twosat=True)
    for k, p in enumerate(none):
        yield "none-%d" % k, lambda p=p, v=k % 3 == 0: solving(p, verbose=v, twosat=k % 2 == 0)
        yield "none-all-%d" % k, lambda p=p, k=k: enumerating(p, k % 2 == 0)
    for k, p in enumerate(hard + pool[:10 * f]):
        yield "all-%d" % k, lambda p=p, k=k: enumerating(p, k % 3 != 0, form=["list", "text", "pairs"][k % 3])
    clash = list(pool[0])
    c = next(c for c in range(81) if clash[c])
    clash[next(x for x in S.PEERS[c] if not clash[x])] = clash[c]
    yield "clash", lambda: enumerating(clash, True)
    yield "full", lambda p=S.filled(rng): solving(p)
    yield "full-all", lambda p=S.filled(rng): enumerating(p, True)
    for k, p in enumerate(pool[:6 * f] + several[:2]):
        yield "show-%d" % k, lambda p=p: showing(p)
    for k, p in enumerate([p for p in pool if sum(map(bool, p)) == sum(map(bool, p))][-10 * f:] * 2):
        yield "move-%d" % k, lambda p=p, keep=k % 2 == 0, s=rng.getrandbits(30): moving(p, keep, s)
    for k in range(6 * f):
        yield "random-%d" % k, lambda k=k, s=rng.getrandbits(30): generating(k % 2 == 0, s)

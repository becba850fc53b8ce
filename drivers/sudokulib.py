"""Puzzles, and a plain search whose branching choices guide the specification's own search."""
import os
import random

GROUPS = [[9 * r + c for c in range(9)] for r in range(9)] + [[9 * r + c for r in range(9)] for c in range(9)] + \
         [[9 * (3 * a + i) + 3 * b + j for i in range(3) for j in range(3)] for a in range(3) for b in range(3)]
OF = [[k for k, g in enumerate(GROUPS) if c in g] for c in range(81)]
PEERS = [sorted(set(x for k in OF[c] for x in GROUPS[k]) - {c}) for c in range(81)]


def clash(g):
    return any(g[c] and any(g[p] == g[c] for p in PEERS[c]) for c in range(81))


def branch(g):
    """The narrowest choice: a cell with its digits, or a group and digit with its cells."""
    best = None
    can = [None] * 81
    for c in range(81):
        if not g[c]:
            used = {g[p] for p in PEERS[c]}
            can[c] = [d for d in range(1, 10) if d not in used]
            if best is None or len(can[c]) < best[0]:
                best = (len(can[c]), (c + 1, 0, 0), [(c, d) for d in can[c]])
                if best[0] == 0:
                    return best
    for k, grp in enumerate(GROUPS):
        have = {g[c] for c in grp}
        for d in range(1, 10):
            if d not in have:
                cells = [c for c in grp if can[c] and d in can[c]]
                if len(cells) < best[0]:
                    best = (len(cells), (0, k + 1, d), [(c, d) for c in cells])
                    if best[0] == 0:
                        return best
    return best


def search(g, limit=None, steps=None):
    """Solutions and the sequence of branchings, in depth-first order; None if over a limit."""
    g = list(g)
    if clash(g):
        return [], []
    if 0 not in g:
        return [tuple(g)], []
    sols, hints, stack = [], [], [g]
    while stack:
        g = stack.pop()
        _, h, alts = branch(g)
        hints.append(list(h))
        if steps and len(hints) > steps:
            return None
        for c, d in reversed(alts):
            x = list(g)
            x[c] = d
            if 0 in x:
                stack.append(x)
            else:
                sols.append(tuple(x))
        if limit and len(sols) > limit:
            return None
    return sols, hints


def filled(rng):
    """A random complete grid."""
    while True:
        g = [0] * 81
        for _ in range(11):
            c = rng.randrange(81)
            used = {g[p] for p in PEERS[c]}
            d = [d for d in range(1, 10) if d not in used]
            if not g[c] and d:
                g[c] = rng.choice(d)
        stack, n = [g], 0
        while stack and n < 400:
            n += 1
            g = stack.pop()
            _, h, alts = branch(g)
            rng.shuffle(alts)
            for c, d in alts:
                x = list(g)
                x[c] = d
                if 0 not in x:
                    return x
                stack.append(x)


def count(g, limit):
    r = search(g, limit, 4000)
    return limit + 1 if r is None else len(r[0])


def minimal(rng, full=None, keep=0, symmetric=False):
    """A uniquely solvable puzzle from which nothing more can be dropped, then some put back."""
    full = full or filled(rng)
    g = list(full)
    order = list(range(81))
    rng.shuffle(order)
    for c in order:
        cs = {c, 80 - c} if symmetric else {c}
        old = [(x, g[x]) for x in cs]
        if any(not v for _, v in old):
            continue
        for x in cs:
            g[x] = 0
        if count(g, 1) != 1:
            for x, v in old:
                g[x] = v
    for c in rng.sample(range(81), keep):
        g[c] = full[c]
    return g


HARD = """
4.....8.5.3..........7......2.....6.....8.4......1.......6.3.7.5..2.....1.4......
52...6.........7.13...........4..8..6......5...........418.........3..2...87.....
6.....8.3.4.7.................5.4.7.3..2.....1.6.......2.....5.....8.6......1....
48.3............71.2.......7.5....6....2..8.............1.76...3.....4......5....
....14....3....2...7..........9...3.6.1.............8.2.....1.4....5.6.....7.8...
......52..8.4......3...9...5.1...6..2..7........3.....6...1..........7.4.......3.
6.2.5.........3.4..........43...8....1....2........7..5..27...........81...6.....
85...24..72......9..4.........1.7..23.5...9...4...........8..7..17..........36.4.
..............3.85..1.2.......5.7.....4...1...9.......5......73..2.1........4...9
1....7.9..3..2...8..96..5....53..9...1..8...26....4...3......1..4......7..7...3..
1.......2.9.4...5...6...7...5.9.3.......7.......85..4.7.....6...3...9.8...2.....1
.......39.....1..5..3.5.8....8.9...6.7...2...1..4.......9.8..5..2....6..4..7.....
..53.....8......2..7..1.5..4....53...1..7...6..32...8..6.5....9..4....3......97..
8..........36......7..9.2...5...7.......457.....1...3...1....68..85...1..9....4..
5..6.1..4.....4.......58...6...........
""".split()
HARD = [[0 if ch == "." else int(ch) for ch in s] for s in HARD if len(s) == 81]


def by_rule():
    """Puzzles on which a given rule has something to do."""
    out = {}
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "data", "sudoku_rules.txt")) as f:
        for line in f:
            if not line.startswith("#"):
                rule, s = line.split()
                out.setdefault(rule, []).append([0 if ch == "." else int(ch) for ch in s])
    return out

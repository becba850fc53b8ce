"""Messages of the solver's verbose account, read as events."""
import io
import re
from graphlib import *
import sudokulib as S
from sudoku_ import Rules, ORDER, state, given

CELL = r"R\dC\d"
KINDS = {"row": 0, "column": 9, "square": 18}


def cells(text):
    return [9 * (int(r) - 1) + int(c) for r, c in re.findall(r"R(\d)C(\d)", text)]


def group(text):
    kind, k = text.split()
    return KINDS[kind] + int(k)


GROUP = r"(?:row|column|square) \d"
LIST = r"(?:%s(?:, and |, or |, | and | or )?)+" % CELL


def ints(text):
    return [int(x) for x in re.findall(r"\d", text)]


def grounds(text):
    """What a message says after its first sentence; only the forms that the specification judges."""
    none = {"kind": "none"}
    m = re.match(r"It is the only cell in (%s) in which (\d) can be placed" % GROUP, text)
    if m:
        return {"kind": "only", "group": group(m.group(1)), "digit": int(m.group(2))}
    if text.startswith("No other digit may be placed in that cell"):
        return {"kind": "last"}
    m = re.match(r"Th(?:is|ese) placements? would conflict with (%s), which are the only cells in (%s) that can contain that digit" % (LIST, GROUP), text)
    if m:
        return {"kind": "conflict", "group": group(m.group(2)), "cells": cells(m.group(1))}
    m = re.match(r"In (%s)(?: and (%s))?, digits ((?:\d(?:, | and |, and )?)+) may only be placed in (%s)\.\s*(To leave enough room|Therefore, \d may not)" % (GROUP, GROUP, LIST), text)
    if m:
        return {"kind": "room" if m.group(5).startswith("To") else "elsewhere",
                "groups": [group(x) for x in m.group(1, 2) if x], "digits": ints(m.group(3)), "cells": cells(m.group(4))}
    m = re.match(r"In (%s), (digits? .* can only be placed in .*?)\.\s*Placing" % GROUP, text)
    if m:
        parts = re.findall(r"digits? ([\d, and]+?) can only be placed in (%s)" % LIST, m.group(2))
        return {"kind": "few", "parts": [{"groups": [group(m.group(1))], "digits": ints(d), "cells": cells(c)} for d, c in parts]}
    if re.match(r"Th(?:is|ese) cells? (?:is|are) not part of any valid placement of this digit", text):
        return {"kind": "cover"}
    return none


def message(text):
    m = re.match(r"Placing (\d) in (%s)\.\s*(.*)" % CELL, text)
    if m:
        return {"op": "place", "d": int(m.group(1)), "c": cells(m.group(2))[0], "why": grounds(m.group(3))}
    m = re.match(r"Preventing (\d) from being placed in (%s)\.\s*(.*)" % LIST, text)
    if m:
        return {"op": "prevent", "d": int(m.group(1)), "cells": cells(m.group(2)), "why": grounds(m.group(3))}
    m = re.match(r"Beginning solver iteration (\d+)\.", text)
    if m:
        return {"op": "begin", "k": int(m.group(1))}
    m = re.match(r"Ending solver iteration (\d+) after successful application of the (.*) rule\.", text)
    if m:
        return {"op": "end", "k": int(m.group(1)), "rule": m.group(2)}
    m = re.match(r"Ending solver iteration (\d+) with no additional progress", text)
    if m:
        return {"op": "idle", "k": int(m.group(1))}
    m = re.match(r"Unable to place (\d) in (%s) as it already contains (\d)" % CELL, text)
    if m:
        return {"op": "unable", "why": "holds", "d": int(m.group(1)), "c": cells(m.group(2))[0], "x": int(m.group(3))}
    m = re.match(r"Unable to place (\d) in (%s) as that digit is not available" % CELL, text)
    if m:
        return {"op": "unable", "why": "gone", "d": int(m.group(1)), "c": cells(m.group(2))[0]}
    m = re.match(r"Unable to place (\d) anywhere in (%s)" % GROUP, text)
    if m:
        return {"op": "unable", "why": "group", "d": int(m.group(1)), "k": group(m.group(2))}
    m = re.match(r"Unable to place any digit in (%s)" % CELL, text)
    if m:
        return {"op": "unable", "why": "cell", "c": cells(m.group(1))[0]}
    if text.startswith("A contradiction was found"):
        return {"op": "contradiction"}
    if text.startswith("A solution to the puzzle has been found"):
        return {"op": "found"}
    if "creating a new backtracking search branch" in text:
        return {"op": "branch"}
    m = re.match(r"Returned from backtracking branch; undoing placement of (\d) in (%s)" % CELL, text)
    if m:
        return {"op": "back", "d": int(m.group(1)), "c": cells(m.group(2))[0]}
    return None


class Log:
    """What was written since the last reading, one event for each message."""

    def __init__(self):
        self.stream, self.read = io.StringIO(), 0

    def events(self):
        text = self.stream.getvalue()[self.read:]
        self.read += len(text)
        out = []
        for para in re.split(r"\n\s*\n", text):
            words = re.sub(r"-\s*\n\s*(?=R\d)", "-", para)
            e = message(" ".join(words.split()))
            if e:
                out.append(e)
        return out


def seen(g):
    return dict(op="state", rules=sorted(set(g.rules_used) - {"backtrack"}), **state(g))


def start(M, puzzle, form="list"):
    g = M.Sudoku(given(puzzle, form))
    log = Log()
    g.logstream = log.stream
    return g, log


def solving(puzzle, unique, twosat, quick=False, keep=None, limit=200):
    ops = []
    tr = {"n": 81, "puzzle": list(puzzle), "ops": ops}
    try:
        from pads import sudoku as M
        try:
            g, log = start(M, puzzle)
        except M.BadSudoku:
            return tr
        g.assume_unique, g.twosat = unique, twosat
        ops.append(seen(g))
        with Rules(M, keep):
            for _ in range(limit):
                bad = False
                try:
                    r = M.step(g, quick)
                except M.BadSudoku:
                    bad = True
                ops.extend(log.events())
                if bad:
                    ops.append({"op": "bad"})
                    break
                ops.append(seen(g))
                if not r:
                    break
    except Exception as e:
        ops.append(raised(e))
    return tr


def enumerating(puzzle, fast, unique=False, twosat=False, limit=40):
    ops = []
    tr = {"n": 81, "puzzle": list(puzzle), "ops": ops}
    try:
        from pads import sudoku as M
        try:
            g, log = start(M, puzzle)
        except M.BadSudoku:
            return tr
        g.assume_unique, g.twosat = unique, twosat
        for k, s in enumerate(M.all_solutions(g, fast)):
            ops.extend(log.events())
            ops.append({"op": "yield", "r": list(s)})
            if k >= limit or len(ops) > 5000:
                return tr
        ops.extend(log.events())
        ops.append({"op": "finished"})
    except Exception as e:
        ops.append(raised(e))
    del ops[5000:]
    return tr


def calling(puzzle, calls):
    """Placements and eliminations asked for directly."""
    ops = []
    tr = {"n": 81, "puzzle": list(puzzle), "ops": ops}
    try:
        from pads import sudoku as M
        g, log = start(M, puzzle)
        ops.append(seen(g))
        for kind, d, cs in calls:
            ops.append({"op": "call", "d": d, "c": cs[0]})
            bad = False
            if kind == "place":
                try:
                    g.place(d, cs[0] - 1)
                except M.BadSudoku:
                    bad = True
            else:
                g.unplace(d, sum(1 << (c - 1) for c in cs))
            ops.extend(log.events())
            if kind == "place":
                ops.append({"op": "refused", "r": bad})
            ops.append(seen(g))
    except Exception as e:
        ops.append(raised(e))
    return tr


def cases(tier, rng):
    big = tier == "thorough"
    f = 4 if big else 1
    gens = list(generated("logs"))
    for k, x in enumerate(gens if big else rng.sample(gens, min(len(gens), 1500))):
        yield "calls-%d" % k, lambda x=x: calling(x["grid"], x["calls"])
    pool = [S.minimal(rng, keep=rng.choice([0, 0, 0, 1, 3, 8])) for _ in range(24 * f)]
    for k in range(40 * f):
        p = rng.choice(pool)
        p = [d if rng.random() < .8 else 0 for d in p]
        calls = []
        for _ in range(rng.randint(5, 40)):
            if rng.random() < .6:
                calls.append(["place", rng.randint(1, 9), [rng.randint(1, 81)]])
            else:
                calls.append(["unplace", rng.randint(1, 9), rng.sample(range(1, 82), rng.choice([1, 1, 2, 3, 9, 30]))])
        yield "calls-random-%d" % k, lambda p=p, calls=calls: calling(p, calls)
    for k, p in enumerate(S.HARD + pool):
        yield "unique-%d" % k, lambda p=p: solving(p, True, True)
        yield "plain-%d" % k, lambda p=p, q=k % 3 == 0: solving(p, False, k % 2 == 0, quick=q)
        keep = {"locate", "eliminate"} | {r for r in ORDER if rng.random() < .5} | {"pair", "bilocal", "bivalue"}
        yield "some-%d" % k, lambda p=p, keep=keep: solving(p, True, True, keep=keep)
        yield "all-%d" % k, lambda p=p, k=k: enumerating(p, k % 2 == 0, k % 4 == 0, k % 3 == 0)
    for rule, ps in sorted(S.by_rule().items()):
        keep = {"locate", "eliminate", rule}
        if rule in ("bilocal", "repeat", "path", "conflict"):
            keep |= {"pair", "bilocal", "bivalue"}
        for k, p in enumerate(ps if big else rng.sample(ps, min(len(ps), 6))):
            yield "%s-%d" % (rule, k), lambda p=p, keep=keep: solving(p, True, True, keep=keep)
    for k, p in enumerate(pool):
        q = list(p)
        for c in rng.sample([c for c in range(81) if q[c]], rng.randint(1, 3)):
            q[c] = 0
        r = S.search(q, 30, 2000)
        if r:
            yield "several-all-%d" % k, lambda p=q, k=k: enumerating(p, k % 2 == 0)
        yield "several-%d" % k, lambda p=q: solving(p, False, True)
        q = list(p)
        c = rng.choice([c for c in range(81) if not q[c]])
        ds = [d for d in range(1, 10) if all(q[x] != d for x in S.PEERS[c])]
        if len(ds) > 1:
            q[c] = rng.choice(ds)
            yield "none-%d" % k, lambda p=q, k=k: solving(p, False, k % 2 == 0)
            yield "none-all-%d" % k, lambda p=q, k=k: enumerating(p, k % 2 == 0)

import random
from graphlib import *
import sudokulib as S
from sudoku_ import state, Rules, given

ALONE = ["locate", "eliminate", "align", "pair", "triad", "rectangle", "subproblem", "nishio"]
ORDER = ["locate", "eliminate", "align", "pair", "triad", "rectangle", "subproblem", "nishio", "twosat"]


def worlds(can):
    """Choices satisfying all conflicts and two-way alternatives, together with and without every possible digit."""
    opts = [[d for d in range(1, 10) if can[c] >> (d - 1) & 1] for c in range(81)]
    V = [(c, d) for c in range(81) for d in opts[c]]
    imp = {(v, s): set() for v in V for s in (0, 1)}
    for c, d in V:
        for e in opts[c]:
            if e != d:
                imp[(c, d), 1].add(((c, e), 0))
        for x in S.PEERS[c]:
            if d in opts[x]:
                imp[(c, d), 1].add(((x, d), 0))
        if len(opts[c]) == 2:
            imp[(c, d), 0].add(((c, sum(opts[c]) - d), 1))
        for k in S.OF[c]:
            w = [x for x in S.GROUPS[k] if d in opts[x]]
            if len(w) == 2:
                imp[(c, d), 0].add(((sum(w) - c, d), 1))

    def closure(l):
        seen, todo = {l}, [l]
        while todo:
            for m in imp[todo.pop()]:
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        return seen
    close = {l: closure(l) for l in imp}
    fine = {l: not any((v, 1 - s) in close[l] for v, s in close[l]) for l in imp}
    out, need = [], [(v, s) for v in V for s in (1, 0) if len(opts[v[0]]) > 1]
    need.sort(key=lambda l: -l[1])
    while need:
        val = {}
        rest = []
        for l in need + [(v, s) for v in V for s in (0, 1)]:
            v, s = l
            if v not in val and fine[l] and all(val.get(w, t) == t for w, t in close[l]):
                for w, t in close[l]:
                    val[w] = t
        for l in need:
            if val.get(l[0]) != l[1]:
                rest.append(l)
        if len(rest) == len(need):
            break
        out.append([[c + 1, d] for (c, d), s in val.items() if s])
        need = rest
    return out


def resting(puzzle, sol, runs, unique=False, form="list"):
    """Runs of <<rules, digits ruled out before>>, each until no progress is reported."""
    tr = {"n": 81, "puzzle": list(puzzle), "sol": list(sol), "unique": unique, "ops": []}
    ops = tr["ops"]
    try:
        from pads import sudoku as M
        g = M.Sudoku(given(puzzle, form))
        g.assume_unique, g.twosat = unique, True
        ops.append(dict(op="made", **state(g)))
        for keep, out in runs:
            what = []
            for c, d in (out(state(g)) if callable(out) else out):
                g.unplace(d, 1 << c)
                what.append([c + 1, d])
            if what:
                ops.append(dict(op="removed", what=what, **state(g)))
            rules = Rules(M, set(keep))
            with rules:
                for _ in range(300):
                    r = M.step(g)
                    s = state(g)
                    on = list(keep) if rules.keep else ORDER
                    ops.append(dict(op="step", r=bool(r), rules=on, worlds=worlds(s["can"]) if not r and "twosat" in on else [], **s))
                    if not r:
                        break
    except Exception as e:
        if type(e).__name__ == "BadSudoku":
            ops.append({"op": "bad"})
        else:
            ops.append(raised(e))
    return tr


def thin(rng, sol, k):
    """Some of the possible digits that a solution does not need."""
    def pick(s, rng=random.Random(rng.getrandbits(30))):
        all_ = [(c, d) for c in range(81) for d in range(1, 10) if s["can"][c] >> (d - 1) & 1 and sol[c] != d]
        return sorted(rng.sample(all_, min(len(all_), k)))
    return pick


def narrow(rng, sol):
    """Candidates removed so that some pattern stands: few places, few digits or aligned places for some digits."""
    def pick(s, rng=random.Random(rng.getrandbits(30))):
        can = s["can"]
        has = lambda c, d: can[c] >> (d - 1) & 1
        out = set()
        for _ in range(rng.randint(1, 3)):
            grp = S.GROUPS[rng.randrange(27)]
            k = rng.randint(2, 4)
            open_ = [c for c in grp if bin(can[c]).count("1") > 1]
            if len(open_) <= k:
                continue
            chosen = rng.sample(open_, k)
            ds = [sol[c] for c in chosen]
            if rng.random() < .5:       # digits only in these cells
                out |= {(c, d) for c in grp for d in ds if c not in chosen and has(c, d)}
            elif rng.random() < .5:     # cells only with these digits
                out |= {(c, d) for c in chosen for d in range(1, 10) if d not in ds and has(c, d)}
            else:                       # a digit of one group in one part of it
                other = S.GROUPS[rng.choice(S.OF[chosen[0]])]
                d = ds[0]
                out |= {(c, d) for c in grp if c not in other and has(c, d)}
        return sorted(p for p in out if sol[p[0]] != p[1])
    return pick


def halve(rng, sol):
    """Candidates removed so that some digits have two places left in a group and some cells two digits."""
    def pick(s, rng=random.Random(rng.getrandbits(30))):
        can = list(s["can"])
        out = set()
        kinds = rng.choice([[0], [1], [2], [0, 1, 2], [0, 1, 2, 3], [3]])
        ds = rng.sample(range(1, 10), rng.choice([1, 2, 9]))
        for _ in range(rng.randint(2, 12)):
            k = rng.choice(kinds)
            if k == 3:
                c = rng.randrange(81)
                w = [(c, d) for d in range(1, 10) if can[c] >> (d - 1) & 1]
            else:
                d = rng.choice(ds)
                w = [(c, d) for c in S.GROUPS[9 * k + rng.randrange(9)] if can[c] >> (d - 1) & 1]
            gone = [p for p in w if sol[p[0]] != p[1]]
            if len(w) > 2 and gone:
                gone.remove(rng.choice(gone))
                for c, d in gone:
                    can[c] &= ~(1 << (d - 1))
                    out.add((c, d))
        return sorted(out)
    return pick


def cases(tier, rng):
    big = tier == "thorough"
    f = 5 if big else 1
    for k, x in enumerate(generated("rest")):
        turn = ALONE[x["turn"] % 8:] + ALONE[:x["turn"] % 8]
        out = [(c - 1, d) for c, d in x["out"]]
        yield "rest-%d" % k, lambda x=x, out=out, turn=turn: resting(x["grid"], x["sol"], [([r], [] if i else out) for i, r in enumerate(turn)])
    pool = [S.minimal(rng, keep=rng.choice([0, 0, 2, 6, 12])) for _ in range(9 * f)]
    hard = [h for h in S.HARD if S.search(h, 20, 1600) is not None]
    rng.shuffle(hard)
    byrule = S.by_rule()
    todo = [(p, True) for p in pool + hard[:6 * f]]
    for r, ps in sorted(byrule.items()):
        todo += [(p, True) for p in (rng.sample(ps, min(len(ps), 2 * f)))]
    for p, u in list(todo[:9 * f]):
        q = list(p)
        for c in rng.sample([c for c in range(81) if q[c]], rng.randint(3, 10)):
            q[c] = 0
        todo.append((q, False))
    for k in range(40 * f):
        sol = S.filled(rng)
        p = [d if rng.random() < rng.choice([0, .1, .2]) else 0 for d in sol]
        yield "open-%d" % k, lambda p=p, sol=sol, h=[halve(rng, sol) for _ in range(4)]: resting(p, sol, [(["locate", "eliminate", "twosat"], x) for x in h])
    for k, (p, u) in enumerate(todo):
        full = S.search(p if u else todo[0][0])[0]
        if u:
            sol = full[0]
        else:
            sol = S.search(next(x for x, y in todo if y and all(b in (0, a) for a, b in zip(x, p))))[0][0]
        for j in range(3):
            runs = []
            for i in range(rng.randint(2, 5)):
                if rng.random() < .6:
                    keep = [rng.choice(ALONE)]
                else:
                    keep = ["locate", "eliminate"] + [r for r in ORDER[2:] if rng.random() < .4]
                out = [] if i == 0 and rng.random() < .5 else thin(rng, sol, rng.choice([1, 5, 20, 60])) if rng.random() < .4 else narrow(rng, sol)
                runs.append((keep, out))
            yield "mixed-%d-%d" % (k, j), lambda p=p, sol=sol, runs=runs, u=u: resting(p, sol, runs, u)
        two = ["locate", "eliminate", "twosat"]
        yield "two-%d" % k, lambda p=p, sol=sol, u=u, h=[halve(rng, sol) for _ in range(4)]: resting(p, sol, [(two, x) for x in h], u)
        yield "all-%d" % k, lambda p=p, sol=sol, u=u, a=thin(rng, sol, 3), b=narrow(rng, sol): resting(p, sol, [(ORDER, []), (ORDER, a), (ORDER, b)], u)

from graphlib import *
from lyndon import take_copies


def lists(n, kinds, ls=()):
    from pads import integer_partitions as M
    fs = {"mckay": M.mckay, "revlex": M.revlex_partitions, "lex": M.lex_partitions, "default": M.partitions, "binary": M.binary_partitions}
    ops = []
    try:
        for k in kinds:
            ops.append({"op": "list", "k": k, "l": 0, "r": take_copies(fs[k](n), 20000)})
        for l in ls:
            ops.append({"op": "list", "k": "fixed", "l": l, "r": take_copies(M.fixed_length_partitions(n, l), 20000)})
    except Exception as e:
        ops.append(raised(e))
    return {"n": n, "ops": ops}


def conj(ps):
    from pads.integer_partitions import conjugate
    ops = []
    for p in ps:
        try:
            q = list(p) if len(p) % 3 else tuple(p)
            r = list(conjugate(q))
            ops.append({"op": "conj", "p": p, "r": r, "after": list(q)})
            ops.append({"op": "conj", "p": r, "r": list(conjugate(r)), "after": r})
        except Exception as e:
            ops.append(raised(e))
    return {"n": 0, "ops": ops}


def number(n, l):
    row = [[1] + [0] * l] + [[0] * (l + 1) for _ in range(n)]
    for m in range(1, n + 1):
        for j in range(1, min(l, m) + 1):
            row[m][j] = row[m - 1][j - 1] + (row[m - j][j] if m >= j else 0)
    return row[n][l]


def cases(tier, rng):
    big = tier == "thorough"
    allk = ("mckay", "revlex", "lex", "default", "binary")
    for n in range(-3, 23 if big else 18):
        yield "n-%d" % n, lambda n=n: lists(n, allk, range(0, max(n, 0) + 3))
    for n in range(18, 90 if big else 60):
        yield "bin-%d" % n, lambda n=n: lists(n, ("binary",))
    for i in range(60 if big else 25):
        n = rng.randint(18, 40)
        l = rng.choice([1, 2, 3, n - 6, n - 3, n - 1, n])
        yield "fix-%d-%d-%d" % (n, l, i), lambda n=n, l=l: lists(n, (), (l,))
    mid = [(n, l) for n in range(18, 81) for l in range(2, n) if 40 < number(n, l) <= (4000 if big else 1200)]
    for i, (n, l) in enumerate(rng.sample(mid, 120 if big else 40)):
        yield "mid-%d-%d" % (n, l), lambda n=n, l=l: lists(n, (), (l,))
    ps = [[]] + [g["p"] for g in generated("parts")]
    for i in range(0, len(ps), 40):
        yield "conj-%d" % i, lambda ps=ps[i:i + 40]: conj(ps)
    for i in range(200 if big else 60):
        ps = [sorted((rng.randint(1, rng.choice([2, 5, 30])) for _ in range(rng.randint(1, 25))), reverse=True) for _ in range(5)]
        yield "conj-r-%d" % i, lambda ps=ps: conj(ps)

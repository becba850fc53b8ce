from graphlib import *


def run(n, keys, imps, style, container, seed):
    """keys and imps over literals +-1..+-n; every left side is added to the keys."""
    from pads.two_satisfiability import Satisfiable, Forced, Symmetrize
    from pads._not import Not, SymbolicNegation
    rng = random.Random(seed)
    items = names(n, style, rng)
    code = Coder(items)

    def obj(a):
        return items[a - 1] if a > 0 else Not(items[-a - 1])

    def lit(x):
        return -code(Not(x)) if isinstance(x, SymbolicNegation) else code(x)
    keys = sorted(set(keys) | {a for a, b in imps})
    rng.shuffle(keys)
    G = {}
    for a in keys:
        out = [obj(b) for c, b in imps if c == a]
        rng.shuffle(out)
        G[obj(a)] = container(out) if container is not dict else {x: True for x in out}
    before, ops = snapshot(G), []
    try:
        ops.append({"op": "sat", "r": bool(Satisfiable(G))})
        F = Forced(G)
        ops.append({"op": "forced", "none": F is None,
                    "r": [] if F is None else [[lit(v), bool(F[v])] for v in F]})
        H = Symmetrize(G)
        ops.append({"op": "sym", "r": [[lit(v), [lit(w) for w in H[v]]] for v in H]})
        ops.append({"op": "same", "r": snapshot(G) == before})
    except Exception as e:
        ops.append(raised(e))
    return {"keys": keys, "imps": [list(i) for i in imps], "ops": ops}


def negations(values, cls):
    from pads._not import Not, SymbolicNegation
    ops = []
    try:
        N = [Not(x) for x in values]
        again = [Not(x) for x in values]
        ops.append({"op": "negs", "cls": cls,
                    "twice": [bool(Not(a) == x and type(Not(a)) is type(x)) for a, x in zip(N, values)],
                    "eq": [[bool(a == b) for b in again] for a in N],
                    "ne": [[bool(a != b) for b in again] for a in N],
                    "hash": [[hash(a) == hash(b) for b in again] for a in N],
                    "nested": [attempt(SymbolicNegation, a)[1] != "" for a in N],
                    "is": [isinstance(a, SymbolicNegation) for a in N],
                    "plain": [[bool(a == x) or bool(x == a) for x in values] for a in N]})
    except Exception as e:
        ops.append(raised(e))
    return {"keys": [], "imps": [], "ops": ops}


def cases(tier, rng):
    big = tier == "thorough"
    yield "empty", lambda: run(0, [], [], "int", set, 0)
    yield "not", lambda: negations([1, 1.0, True, 0, -1, -2, "a", "", (), (1, 2), None, frozenset([3]), 2.5, 10 ** 30, Opaque("z")],
                                   [1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13])
    for name, n in (("s2", 2), ("s3", 3)):
        for k, imps in enumerate(generated(name)):
            if n == 2 and not big and k % 3 or n == 3 and not big and k % 4:
                continue
            imps = [tuple(i) for i in imps]
            keys = [a for a in range(-n, n + 1) if a and k * 7 % (abs(a) + 3) == 0]
            yield "gen-%s-%d" % (name, k), lambda a=(n, keys, imps), k=k: run(*a, style_of(k), container_of(k), k)
    for k in range(3000 if big else 900):
        n = rng.choice([1, 3, 4, 5, 6, 8, 10, 15, 25])
        lits = [a for a in range(-n, n + 1) if a]
        c = rng.random()
        m = rng.choice([n // 2, n, n + n // 3, 2 * n])
        if c < .6:
            imps = {(rng.choice(lits), rng.choice(lits)) for _ in range(m)}
        elif c < .8:        # long chains of implications, some closing on their negation
            p = [rng.choice([1, -1]) * v for v in rng.sample(range(1, n + 1), n)]
            imps = set(zip(p, p[1:]))
            for _ in range(rng.randint(0, 3)):
                imps.add((rng.choice(p), -rng.choice(p)))
            for _ in range(rng.randint(0, 2)):
                imps.add((-rng.choice(p), rng.choice(p)))
        else:               # planted solution
            s = {v: rng.random() < .5 for v in range(1, n + 1)}
            true = lambda a: s[abs(a)] == (a > 0)
            imps = {(a, b) for a, b in ((rng.choice(lits), rng.choice(lits)) for _ in range(3 * n)) if not true(a) or true(b)}
        keys = [a for a in lits if rng.random() < .2]
        yield "rnd-%d" % k, lambda a=(n, keys, sorted(imps)), k=k, s=rng.getrandbits(30): run(*a, style_of(k), container_of(k), s)
    for k in range(100 if big else 25):
        n = rng.choice([40, 65, 100, 130])
        lits = [a for a in range(-n, n + 1) if a]
        s = {v: rng.random() < .5 for v in range(1, n + 1)}
        true = lambda a: s[abs(a)] == (a > 0)
        imps = {(a, b) for a, b in ((rng.choice(lits), rng.choice(lits)) for _ in range(rng.choice([n, 2 * n]))) if k % 3 == 0 or not true(a) or true(b)}
        if k % 3 == 1:
            p = [rng.choice([1, -1]) * v for v in rng.sample(range(1, n + 1), n)]
            imps = set(zip(p, p[1:])) | {(p[-1], -p[0])} | ({(-p[0], p[0])} if rng.random() < .5 else set())
        yield "large-%d" % k, lambda a=(n, [a for a in lits if rng.random() < .05], sorted(imps)), k=k, s=rng.getrandbits(30): run(*a, style_of(k), container_of(k), s)

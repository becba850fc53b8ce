from graphlib import *


def run(I, st):
    from pads.biconnectivity import BiconnectedComponents, is_biconnected, st_orientation
    ops = []
    if not st:
        r, exc = attempt(lambda: [I.back(C) for C in take(iter(BiconnectedComponents(I.G)), 2 * len(I.arcs) + I.n + 2)])
        ops.append({"op": "comps", "r": r or [], "exc": exc})
        b, exc = attempt(is_biconnected, I.G)
        ops.append({"op": "isbi", "r": bool(b), "exc": exc})
    else:
        o, exc = attempt(lambda: I.back(st_orientation(I.G)))
        ops.append({"op": "st", "r": o or [], "exc": exc})
    return I.head(ops=ops)


def ears(rng, n):
    """Biconnected graph by adding paths between existing vertices."""
    m = rng.randint(3, max(3, min(6, n)))
    e = [(i, (i + 1) % m) for i in range(m)]
    have = m
    while have < n:
        k = min(rng.randint(1, 4), n - have)
        a, b = rng.sample(range(have), 2)
        path = [a] + list(range(have, have + k)) + [b]
        e += list(zip(path, path[1:]))
        have += k
    for _ in range(rng.randint(0, 3)):
        e.append(tuple(rng.sample(range(n), 2)))
    return relabel(rng, have, simple(e)), have


def cases_for(tier, rng, st):
    big = tier == "thorough"
    yield "empty", lambda: run(Inst(0, []), st)
    for k, h in enumerate(generated("ug")):
        for r in range(3 if st else 2):
            yield "gen-%d-%d" % (k, r), lambda h=h, k=k, r=r: run(
                Inst(len(h), arcs_of(h), style_of(k + r), container_of(k + 7 * r), k + 5000 * r), st)
    for k in range(2500 if big else 600):
        n = rng.choice([1, 2, 3, 4, 6, 7, 9, 12, 16])
        if rng.random() < (.6 if st else .2):
            e, n = ears(rng, max(n, 3))
            if rng.random() < .2:      # something extra beside a biconnected graph
                n += rng.randint(1, 2)
                if rng.random() < .5:
                    e = e + [(n - 1, rng.randrange(n - 1))]
        else:
            e = undirected(rng, n)
        yield "rnd-%d" % k, lambda n=n, e=e, k=k, s=rng.getrandbits(30): run(
            Inst(n, e, style_of(k), container_of(k), s, True), st)
    for k in range(120):
        n = rng.randint(1, 5)
        e = directed(rng, n)
        yield "dir-%d" % k, lambda n=n, e=e, k=k: run(Inst(n, e, style_of(k), container_of(k)), st)
    n = 30 if not big else 60
    for k in range(6):
        e, m = ears(rng, n)
        yield "big-%d" % k, lambda e=e, m=m, k=k: run(Inst(m, e, style_of(k), set, k, True), st)
    for k, n, e, s in larges(rng, 20 if big else 6, (40, 55, 70)):
        yield "large-%d" % k, lambda n=n, e=e, k=k, s=s: run(Inst(n, e, style_of(k), container_of(k), s, True), st)
    for k, (name, n, e, s) in enumerate(shapes(rng, 20)):
        yield "shape-" + name, lambda n=n, e=e, k=k, s=s: run(Inst(n, e, style_of(k), container_of(k), s, True), st)
    # beyond the recursion limit of the language, and cheap for the specification only when small
    yield "wide", lambda: run(Inst(26, [(0, i) for i in range(1, 26)], "int", set, 3, True), st)


def cases(tier, rng):
    return cases_for(tier, rng, False)

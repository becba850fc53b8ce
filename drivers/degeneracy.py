from graphlib import *


def run(I):
    from pads import graphdegeneracy as D
    und = all((b, a) in set(I.arcs) and a != b for a, b in I.arcs)
    ops = []
    r, exc = attempt(lambda: [[I.code(v), d] for v, d in take(D.degeneracySequence(I.G), I.n + 2)])
    ops.append({"op": "removal", "r": r or [], "exc": exc})
    if und:
        try:
            if I.n:
                d, exc = attempt(D.degeneracy, I.G)
                ops.append({"op": "degen", "r": -1 if exc else d, "exc": exc})
            for k in [None] + list(range(0, min(I.n + 1, 7))):
                c, exc = attempt(lambda: I.code.seq(D.core(I.G) if k is None else D.core(I.G, k)))
                ops.append({"op": "core", "k": -1 if k is None else k, "r": c or [], "exc": exc})
            ops.append({"op": "degorient", "r": I.back(D.degeneracyOrientation(I.G))})
            ops.append({"op": "triangles", "r": [I.code.seq(t) for t in take(D.triangles(I.G), I.n ** 3 + 2)]})
        except Exception as e:
            ops.append(raised(e))
    return I.head(ops=ops)


def cases(tier, rng):
    big = tier == "thorough"
    yield "empty", lambda: run(Inst(0, []))
    for k, h in enumerate(generated("ug")):
        yield "gen-%d" % k, lambda h=h, k=k: run(Inst(len(h), arcs_of(h), style_of(k), container_of(k), k))
    for k in range(2500 if big else 600):
        n = rng.choice([1, 2, 4, 6, 7, 9, 12, 18])
        e = undirected(rng, n)
        if rng.random() < .3 and n > 6:      # a dense spot in a sparse graph
            e = simple(e + list(itertools.combinations(rng.sample(range(n), 5), 2)))
        yield "rnd-%d" % k, lambda n=n, e=e, k=k, s=rng.getrandbits(30): run(
            Inst(n, e, style_of(k), container_of(k), s, True))
    for k in range(60):
        n = rng.randint(1, 5)
        e = directed(rng, n)
        yield "dir-%d" % k, lambda n=n, e=e, k=k: run(Inst(n, e, style_of(k)))
    for k, n, e, s in larges(rng, 60 if big else 20):
        yield "large-%d" % k, lambda n=n, e=e, k=k, s=s: run(Inst(n, e, style_of(k), container_of(k), s, True))
    for k, (name, n, e, s) in enumerate(shapes(rng, 20)):
        yield "shape-" + name, lambda n=n, e=e, k=k, s=s: run(Inst(n, e, style_of(k), container_of(k), s, True))

from graphlib import *


def run(I):
    from pads import bipartite as B
    ops = []
    c, exc = attempt(B.two_color, I.G)
    ops.append({"op": "color", "exc": exc, "one": [I.code(v) for v in (c or {}) if c[v] == True],
                "two": [I.code(v) for v in (c or {}) if c[v] == False]})
    s, exc = attempt(lambda: I.code.seq(take(B.bipartition(I.G), I.n + 2)))
    ops.append({"op": "side", "r": s or [], "exc": exc})
    b, exc = attempt(B.is_bipartite, I.G)
    ops.append({"op": "isbip", "r": bool(b), "exc": exc})
    for t in (set, list):
        o, exc = attempt(lambda: I.back(B.bipartite_orientation(I.G, t) if t is list else B.bipartite_orientation(I.G)))
        ops.append({"op": "biporient", "r": o or [], "exc": exc})
    o, exc = attempt(lambda: I.back(B.odd_core(I.G)))
    ops.append({"op": "oddcore", "r": o} if not exc else {"op": "raised", "exc": exc})
    return I.head(ops=ops)


def odd_even(rng, n):
    """Bipartite pieces and odd pieces glued together."""
    e, have = [], 1
    while have < n:
        m = min(rng.choice([1, 2, 3, 3, 4, 5]), n - have)
        ring = [rng.randrange(have)] + list(range(have, have + m))
        e += list(zip(ring, ring[1:]))
        if len(ring) > 2 and rng.random() < .8:
            e.append((ring[0], ring[-1]))
        have += m
    return relabel(rng, n, simple(e))


def cases(tier, rng):
    big = tier == "thorough"
    yield "empty", lambda: run(Inst(0, []))
    for k, h in enumerate(generated("ug")):
        yield "gen-%d" % k, lambda h=h, k=k: run(Inst(len(h), arcs_of(h), style_of(k), container_of(k), k))
    for k in range(2500 if big else 600):
        n = rng.choice([1, 2, 4, 6, 7, 9, 12, 18])
        e = odd_even(rng, n) if rng.random() < .4 else undirected(rng, n)
        yield "rnd-%d" % k, lambda n=n, e=e, k=k, s=rng.getrandbits(30): run(
            Inst(n, e, style_of(k), container_of(k), s, True))
    for k, n, e, s in larges(rng, 60 if big else 20, (30, 45, 70), lambda r, n: odd_even(r, n) if r.random() < .6 else undirected(r, n)):
        yield "large-%d" % k, lambda n=n, e=e, k=k, s=s: run(Inst(n, e, style_of(k), container_of(k), s, True))
    for k, (name, n, e, s) in enumerate(shapes(rng, 20)):
        yield "shape-" + name, lambda n=n, e=e, k=k, s=s: run(Inst(n, e, style_of(k), container_of(k), s, True))

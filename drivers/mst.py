from graphlib import *
from fractions import Fraction

SCALE = 12


def run(n, wt, style, seed, kind):
    """wt: dict of directed pairs -> integer (weight times SCALE for fractional kinds)."""
    from pads.minimum_spanning_tree import MinimumSpanningTree
    I = Inst(n, list(wt), style, dict, seed)
    conv = {"int": int, "float": lambda x: x / 4, "frac": lambda x: Fraction(x, SCALE), "bool": int}[kind]
    for (a, b), w in wt.items():
        I.G[I.items[a]][I.items[b]] = conv(w)
    t, exc = attempt(lambda: [[I.code(u), I.code(v)] for u, v in MinimumSpanningTree(I.G)])
    m = [[wt.get((a, b), 0) for b in range(n)] for a in range(n)]
    return I.head(wt=m, ops=[{"op": "mst", "r": t or [], "exc": exc}])


def sym(edges):
    return {p: w for (a, b), w in edges.items() for p in ((a, b), (b, a))}


KINDS = ("int", "float", "frac")


def cases(tier, rng):
    big = tier == "thorough"
    yield "empty", lambda: run(0, {}, "int", None, "int")
    for k, h in enumerate(generated("kr")):
        wt = {(a, b): h[a][b] for a in range(len(h)) for b in range(len(h)) if h[a][b]}
        yield "gen-%d" % k, lambda wt=wt, k=k, n=len(h): run(n, wt, style_of(k), k, KINDS[k % 3])
    for k in range(3000 if big else 900):
        n = rng.choice([1, 2, 3, 5, 6, 8, 12, 16])
        lo, hi = rng.choice([(0, 1), (-3, 3), (1, 5), (-1000, 1000), (0, 0), (1, 100)])
        wt = sym({e: rng.randint(lo, hi) for e in undirected(rng, n)})
        c = rng.random()
        if wt and c < .1:
            p = rng.choice(list(wt))
            wt[p] += rng.choice([1, -1])
        elif wt and c < .15:
            del wt[rng.choice(list(wt))]
        elif c < .18:
            wt[(0, 0)] = 1
        yield "rnd-%d" % k, lambda n=n, wt=wt, k=k, s=rng.getrandbits(30): run(n, wt, style_of(k), s, KINDS[k % 3])
    for k, n, e, s in larges(rng, 60 if big else 20):
        hi = rng.choice([1, 5, 1000])
        yield "large-%d" % k, lambda n=n, wt=sym({p: rng.randint(-hi, hi) for p in e}), k=k, s=s: run(n, wt, style_of(k), s, KINDS[k % 3])
    for k, (name, n, e, s) in enumerate(shapes(rng)):
        r = random.Random(s)
        wt = sym({p: r.choice([0, 1, 1, 2, 5]) for p in e})
        yield "shape-" + name, lambda n=n, wt=wt, k=k, s=s: run(n, wt, style_of(k), s, KINDS[k % 3])

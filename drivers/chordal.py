from graphlib import *


def run(I):
    from pads.chordal import is_chordal, perfect_elimination_ordering
    v, exc = attempt(is_chordal, I.G)
    ops = [{"op": "chordal", "r": bool(v), "exc": exc}]
    if all((b, a) in set(I.arcs) and a != b for a, b in I.arcs):
        o, exc = attempt(lambda: I.code.seq(perfect_elimination_ordering(I.G)))
        ops.append({"op": "peo", "r": o or [], "exc": exc})
    return I.head(ops=ops)


def hole(rng, n):
    """Chordal graph with one long induced cycle hidden in it."""
    m = rng.randint(4, max(4, n - 2))
    e = [(i, (i + 1) % m) for i in range(m)]
    for v in range(m, n):
        u, w = rng.choice(e)
        e += [(u, v), (w, v)]
    return relabel(rng, n, simple(e))


def cases(tier, rng):
    big = tier == "thorough"
    yield "empty", lambda: run(Inst(0, []))
    for name in ("ug", "ug4"):
        for k, h in enumerate(generated(name)):
            for r in range(2):
                yield "gen-%s-%d-%d" % (name, k, r), lambda h=h, k=k, r=r: run(
                    Inst(len(h), arcs_of(h), style_of(k + r), container_of(k), k + 1000 * r))
    for k in range(2500 if big else 700):
        n = rng.choice([6, 7, 8, 10, 14])
        c = rng.random()
        e = ktree(rng, n, rng.randint(1, 4), rng.choice([0, 0, 1, 1, 2])) if c < .5 else hole(rng, n) if c < .7 else undirected(rng, n)
        yield "und-%d" % k, lambda n=n, e=e, k=k, s=rng.getrandbits(30): run(
            Inst(n, e, style_of(k), container_of(k), s, True))
    for k in range(60):
        n = rng.randint(1, 4)
        e = directed(rng, n)
        yield "dir-%d" % k, lambda n=n, e=e, k=k: run(Inst(n, e, style_of(k)))
    for k, n, e, s in larges(rng, 60 if big else 20, (20, 30, 45, 60), lambda r, n: ktree(r, n, r.randint(1, 4), r.choice([0, 0, 1])) if r.random() < .8 else undirected(r, n)):
        yield "large-%d" % k, lambda n=n, e=e, k=k, s=s: run(Inst(n, e, style_of(k), container_of(k), s, True))
    for k, (name, n, e, s) in enumerate(shapes(rng, 20)):
        yield "shape-" + name, lambda n=n, e=e, k=k, s=s: run(Inst(n, e, style_of(k), container_of(k), s, True))

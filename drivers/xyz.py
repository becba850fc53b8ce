from graphlib import *
from cubic_ham import genpet, moebius, inflate


def run(n, edges, style, container, seed, sym=True):
    from pads.xyz_graph import CubicMatchPartitions, xyzEmbeddings
    I = Inst(n, edges, style, container, seed, sym)
    G, c, before, ops = I.G, I.code, snapshot(I.G), []
    try:
        r = []
        for P in CubicMatchPartitions(G):
            r.append([[c(v), [c(w) for w in P[v]]] for v in P])
            if len(r) > 500:
                break
        ops.append({"op": "parts", "r": r})
    except Exception as e:
        ops.append({"op": "refused"} if not r else raised(e))
    try:
        r = []
        for P in xyzEmbeddings(G):
            r.append([[c(v), list(P[v])] for v in P])
            if len(r) > 500:
                break
        ops.append({"op": "embs", "r": r})
    except Exception as e:
        ops.append({"op": "refused"} if not r else raised(e))
    ops.append({"op": "same", "r": snapshot(G) == before})
    return I.head(ops=ops)


def run_points(sets):
    from pads.xyz_graph import isxyz
    ops = []
    for k, P in enumerate(sets):
        Q = [tuple(p) for p in P]
        X = Q if k % 3 == 0 else [list(p) for p in P] if k % 3 == 1 else {tuple(x / 2 for x in p) for p in P}
        try:
            ops.append({"op": "isxyz", "p": [list(p) for p in P], "r": bool(isxyz(X))})
        except Exception as e:
            ops.append(raised(e))
            break
    return {"adj": [], "ops": ops}


def cubic(rng, n):
    """Random cubic graph by pairing."""
    while True:
        pts = [v for v in range(n) for _ in range(3)]
        rng.shuffle(pts)
        e = {tuple(sorted(x)) for x in zip(pts[::2], pts[1::2])}
        if len(e) == 3 * n // 2 and all(a != b for a, b in e):
            return sorted(e)


def bicubic(rng, n):
    while True:
        h = n // 2
        e = set()
        for _ in range(3):
            p = list(range(h))
            rng.shuffle(p)
            e |= {(i, h + p[i]) for i in range(h)}
        if len(e) == 3 * h:
            return sorted(e)


def grow_points(rng, m):
    """Random point set, often with two points on many lines."""
    c = rng.random()
    if c < .3:
        return [list(p) for p in itertools.product(range(2), repeat=3)]
    if c < .55:             # random cubes put together without sharing lines
        P = []
        for k in range(rng.randint(1, 3)):
            xs = [[2 * k, 2 * k + 1] for _ in range(3)]
            P += [[a, b, c] for a in xs[0] for b in xs[1] for c in xs[2]]
        return P
    if c < .7:              # hexagonal prism and its like
        k = rng.randint(2, 4)
        ring = [[i, (i + d) % k] for i in range(k) for d in (0, 1)] if k > 2 else [[0, 0], [0, 1], [1, 0], [1, 1]]
        return [[a, b, z] for a, b in ring for z in (0, 1)]
    return [list(p) for p in {tuple(rng.randrange(m) for _ in range(3)) for _ in range(rng.randint(1, 20))}]


def cases(tier, rng):
    big = tier == "thorough"
    for name in ("c4", "c6", "c8"):
        for k, h in enumerate(generated(name)):
            for r in range(12 if name != "c6" else 3):
                yield "gen-%s-%d-%d" % (name, k, r), lambda h=h, k=k, r=r: run(len(h), arcs_of(h), style_of(k + r), container_of(k + r), k * 20 + r, False)
    fams = [genpet(n, 1) for n in (3, 4, 5, 6)] + [genpet(5, 2), genpet(6, 2), genpet(7, 2)] + [moebius(n) for n in (4, 6, 8, 10, 12)]
    fams += [inflate(rng, *genpet(3, 1), 1), inflate(rng, *moebius(6), 2), inflate(rng, *genpet(4, 1), 2)]
    for k, (n, e) in enumerate(fams):
        for r in range(3):
            yield "fam-%d-%d" % (k, r), lambda a=(n, e), k=k, r=r: run(*a, style_of(k + r), container_of(k), k * 20 + r)
    for k in range(400 if big else 100):
        n = rng.choice([4, 6, 8, 8, 10, 10, 12] + [14, 16] * big)
        e = bicubic(rng, n) if k % 2 and n > 4 else cubic(rng, n)
        yield "rnd-%d" % k, lambda a=(n, e), k=k, s=rng.getrandbits(30): run(*a, style_of(k), container_of(k), s)
    for k in range(30 if big else 8):       # more choices than fit in a byte
        n = rng.choice([18, 20, 20, 22])
        e = bicubic(rng, n) if k % 4 == 1 else cubic(rng, n)
        yield "deep-%d" % k, lambda a=(n, e), k=k, s=rng.getrandbits(30): run(*a, style_of(k), container_of(k), s)
    for k in range(60):     # inputs to refuse
        n = rng.choice([4, 6, 8])
        e = cubic(rng, n)
        if k % 4 == 0:
            e.pop(rng.randrange(len(e)))
            yield "odd-%d" % k, lambda a=(n, e), k=k: run(*a, style_of(k), container_of(k), k)
        elif k % 4 == 1:
            f = cubic(rng, 4)
            e = e + [(a + n, b + n) for a, b in f]
            yield "odd-%d" % k, lambda a=(n + 4, e), k=k: run(*a, style_of(k), container_of(k), k)
        elif k % 4 == 2:
            arcs = e + [(b, a) for a, b in e]
            arcs.remove(rng.choice(arcs))
            yield "odd-%d" % k, lambda a=(n, arcs), k=k: run(*a, style_of(k), container_of(k), k, False)
        else:               # two subdivided pieces joined by a bridge
            e = [(0, 1), (0, 2), (1, 3), (2, 3), (1, 2), (0, 4), (3, 4), (4, 9)]
            e = e + [(a + 5, b + 5) for a, b in e[:-1]]
            yield "odd-%d" % k, lambda a=(10, e), k=k: run(*a, style_of(k), container_of(k), k)
    cube = list(itertools.product((0, 1), repeat=3))
    sets = [[list(p) for i, p in enumerate(cube) if b >> i & 1] for b in range(256)]
    for i in range(0, 256, 16):
        yield "pts-%d" % i, lambda i=i: run_points(sets[i:i + 16])
    for k in range(60 if big else 20):
        P = []
        for _ in range(10):
            p = grow_points(rng, rng.choice([2, 3, 4]))
            if rng.random() < .4 and p:
                p.pop(rng.randrange(len(p)))
            if rng.random() < .2:
                q = [rng.randrange(4) for _ in range(3)]
                p = p + [q] if q not in p else p
            s = [rng.sample(range(9), 9) for _ in range(3)]
            P.append([[s[i][x] for i, x in enumerate(q)] for q in p])
        yield "pset-%d" % k, lambda P=P: run_points(P)

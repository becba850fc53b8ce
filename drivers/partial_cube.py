from graphlib import *
from media import bits_of, family


def run(n, edges, style, container, seed, sym=True):
    from pads.partial_cube import PartialCubeEdgeLabeling, PartialCubeLabeling, MediumForPartialCube, isPartialCube
    from pads.medium import MediumError
    I = Inst(n, edges, style, container, seed, sym)
    G, c, before, ops = I.G, I.code, snapshot(I.G), []
    try:
        r = isPartialCube(G)
        ops.append({"op": "cube", "r": bool(r)})
        try:
            P = PartialCubeLabeling(G)
            ops.append({"op": "coords", "r": [[c(v), bits_of(P[v])] for v in P]})
        except MediumError:
            ops.append({"op": "nolabels"})
        try:
            M = MediumForPartialCube(G)
            T = list(M.tokens())
            ops.append({"op": "medium", "act": [[c(s), i + 1, c(M(s, t))] for s in M for i, t in enumerate(T)]})
        except MediumError:
            ops.append({"op": "nocube"})
        if r:               # without verification, labels of other graphs mean nothing
            E = PartialCubeEdgeLabeling(G)
            num = {}
            ops.append({"op": "labels", "r": [[c(v), c(w), num.setdefault(E[v][w], len(num) + 1)] for v in E for w in E[v]]})
        ops.append({"op": "same", "r": snapshot(G) == before})
    except Exception as e:
        ops.append(raised(e))
    return I.head(ops=ops, kind="graph")


def cube_edges(vec):
    at = {x: i for i, x in enumerate(vec)}
    return [(at[x], at[y]) for x in vec for y in vec if x < y and (x ^ y) & ((x ^ y) - 1) == 0]


def spread(rng, dim, n):
    """Vectors added one at a time next to earlier ones, kept only while distances stay those of the cube."""
    vec = [0]
    dist = {0: {0: 0}}
    for _ in range(40 * n):
        if len(vec) >= n:
            break
        x = rng.choice(vec) ^ 1 << rng.randrange(dim)
        if x in dist:
            continue
        near = [y for y in vec if bin(x ^ y).count("1") == 1]
        if all(min(dist[y][z] for y in near) + 1 == bin(x ^ z).count("1") for z in vec):
            dist[x] = {x: 0}
            for z in vec:
                dist[x][z] = dist[z][x] = bin(x ^ z).count("1")
            vec.append(x)
    return vec


def product(n1, e1, n2, e2):
    return n1 * n2, [(a * n2 + j, b * n2 + j) for a, b in e1 for j in range(n2)] + \
        [(i * n2 + a, i * n2 + b) for a, b in e2 for i in range(n1)]


def cyc(n):
    return n, [(i, (i + 1) % n) for i in range(n)]


def path(n):
    return n, [(i, i + 1) for i in range(n - 1)]


def desargues():
    return 20, simple([(i, (i + 1) % 10) for i in range(10)] + [(i, 10 + i) for i in range(10)]
                      + [(10 + i, 10 + (i + 3) % 10) for i in range(10)])


def cases(tier, rng):
    big = tier == "thorough"
    k = 0
    for h in generated("gg"):
        if h["k"] == "g":
            yield "gen-%d" % k, lambda h=h, k=k: run(len(h["v"]), arcs_of(h["v"]), style_of(k), container_of(k), k)
            k += 1
    for k, (n, e) in enumerate(atlas(1, 7)):
        yield "atlas-%d" % k, lambda a=(n, e), k=k: run(*a, style_of(k), container_of(k), k)
        if len(e) < 2 * n and k % 2 == 0:
            yield "atlas-%d-b" % k, lambda a=(n, e), k=k: run(*a, style_of(k + 1), container_of(k + 7), k + 5000)
    fams = [cyc(n) for n in (3, 4, 5, 6, 7, 8, 9, 10, 12)] + [path(n) for n in (2, 5, 9, 16)] + [desargues()]
    fams += [product(*cyc(a), *path(b)) for a in (4, 6, 5) for b in (2, 3)] + [product(*cyc(4), *cyc(6)), product(*cyc(4), *cyc(4))]
    fams += [product(*path(a), *path(b)) for a in (2, 3, 4) for b in (2, 3, 5)]
    fams += [(8, cube_edges(range(8))), (16, cube_edges(range(16))), (5, [(0, 2), (0, 3), (0, 4), (1, 2), (1, 3), (1, 4)]),
             (6, [(a, b) for a in range(3) for b in range(3, 6)]), (14, cube_edges(range(16))[:0])]
    for k, (n, e) in enumerate(fams):      # one direction missing, or a loop added
        arcs = e + [(b, a) for a, b in e]
        bent = [arcs + [(v, v)] for v in (0, n - 1)]
        if e:
            bent += [arcs[1:], arcs[:-1], e]
        for r, a in enumerate(bent):
            yield "bent-%d-%d" % (k, r), lambda a=(n, a), k=k, r=r: run(*a, style_of(k + r), container_of(k + r), k * 10 + r, False)
    for k, (n, e) in enumerate(fams):
        for r in range(3):
            yield "fam-%d-%d" % (k, r), lambda a=(n, e), k=k, r=r: run(*a, style_of(k + r), container_of(k + r), k * 10 + r)
    large = [(32, cube_edges(range(32))), (64, cube_edges(range(64))), path(60), cyc(50), cyc(51), product(*path(7), *path(8)),
             product(*cyc(10), *path(4)), product(*product(*path(3), *path(4)), *path(4)), (41, [(0, i) for i in range(1, 41)]),
             (40, [((i - 1) // 2, i) for i in range(1, 40)]), (42, [(a, b) for a in range(2) for b in range(2, 42)]),
             product(*cyc(6), *cyc(8)), (63, [(a, b) for a, b in cube_edges(range(64)) if b < 63]), product(*desargues(), *path(2))]
    if big:
        large += [(128, cube_edges(range(128))), path(150), cyc(120), product(*path(12), *path(10)), product(*cyc(10), *cyc(10))]
    for k, (n, e) in enumerate(large):
        yield "large-%d" % k, lambda a=(n, e), k=k: run(*a, style_of(k), container_of(k), k)
        c = rng.randrange(3)
        f = rng.sample(e, len(e) - 1) if c else simple(e + [tuple(rng.sample(range(n), 2))])
        yield "large-%d-b" % k, lambda a=(n, f), k=k: run(*a, style_of(k + 1), container_of(k + 1), k)
    for k in range(1500 if big else 350):
        L = rng.choice([2, 3, 4, 5])
        vec = family(rng, L)[:20]
        e = cube_edges(vec)
        n = len(vec)
        c = rng.random()
        if c < .2 and e:
            e.pop(rng.randrange(len(e)))
        elif c < .35 and n > 1:
            e = simple(e + [tuple(rng.sample(range(n), 2))])
        elif c < .5:
            n += 1
            e = e + [(rng.randrange(n - 1), n - 1)]
            if rng.random() < .3:
                e = simple(e + [(rng.randrange(n - 1), n - 1)])
        yield "rnd-%d" % k, lambda a=(n, e), k=k, s=rng.getrandbits(30): run(*a, style_of(k), container_of(k), s)
    for k in range(160 if big else 30):        # middle sizes
        r = random.Random(rng.getrandbits(30))
        vec = spread(r, r.randint(6, 14), r.randint(24, 60 if big else 44))
        e, n = cube_edges(vec), len(vec)
        c = r.random()
        if c < .3:
            e.pop(r.randrange(len(e)))
        elif c < .4:
            e = simple(e + [tuple(r.sample(range(n), 2))])
        elif c < .6:
            x = r.randrange(n)
            e = [p for p in e if x not in p] + [(x, r.choice([v for v in range(n) if v != x]))]
        yield "mid-%d" % k, lambda a=(n, e), k=k, s=r.getrandbits(30): run(*a, style_of(k), container_of(k), s)
    for k, (name, n, e, s) in enumerate(shapes(rng, 20)):
        yield "shape-" + name, lambda n=n, e=e, k=k, s=s: run(n, e, style_of(k), container_of(k), s)

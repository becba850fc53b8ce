from graphlib import *


def run(n, arcs, style, container, seed, sym=True):
    from pads.cubic_ham import hamiltonian_cycles
    I = Inst(n, arcs, style, container, seed, sym)
    before = snapshot(I.G)
    ops = []
    try:
        out = []
        for C in hamiltonian_cycles(I.G):
            out.append(I.back(C))
            if len(out) > 3000:
                break
        ops.append({"op": "cycles", "r": out})
    except ValueError:
        ops.append({"op": "refused"})
    except Exception as e:
        ops.append(raised(e))
    ops.append({"op": "same", "r": snapshot(I.G) == before})
    return I.head(ops=ops)


def subcubic(rng, n):
    """Random graph of maximum degree three, usually with a spanning cycle."""
    deg, e = [0] * n, set()

    def add(a, b):
        a, b = min(a, b), max(a, b)
        if a != b and (a, b) not in e and deg[a] < 3 and deg[b] < 3:
            e.add((a, b))
            deg[a] += 1
            deg[b] += 1
    c = rng.random()
    if c < .6:
        p = list(range(n))
        rng.shuffle(p)
        for a, b in zip(p, p[1:] + p[:1]):
            add(a, b)
    if c < .2:              # short chords: triangles and quadrilaterals
        for i in range(n):
            if rng.random() < .6:
                add(p[i], p[(i + rng.choice([2, 3])) % n])
    else:
        for _ in range(rng.choice([n, 3 * n, 6 * n])):
            add(rng.randrange(n), rng.randrange(n))
    return sorted(e)


def inflate(rng, n, e, times):
    """Replace vertices of degree three by triangles."""
    for _ in range(times):
        adj = {v: [] for v in range(n)}
        for a, b in e:
            adj[a].append(b)
            adj[b].append(a)
        three = [v for v in adj if len(adj[v]) == 3]
        if not three:
            break
        v = rng.choice(three)
        x, y, z = adj[v]
        e = [f for f in e if v not in f] + [(v, x), (n, y), (n + 1, z), (v, n), (v, n + 1), (n, n + 1)]
        n += 2
    return n, simple(e)


def genpet(n, k):
    return 2 * n, simple([(i, (i + 1) % n) for i in range(n)] + [(i, n + i) for i in range(n)]
                         + [(n + i, n + (i + k) % n) for i in range(n)])


def moebius(n):
    return n, simple([(i, (i + 1) % n) for i in range(n)] + [(i, i + n // 2) for i in range(n // 2)])


def bridged(rng, a, b, at=None):
    """Two graphs, each with an edge subdivided, joined by a bridge between the new vertices."""
    (n, e), (m, f) = a, b
    e, f = list(e), [(x + n, y + n) for x, y in b[1]]
    x, y = e.pop(rng.randrange(len(e)))
    z, w = f.pop(rng.randrange(len(f)))
    p, q = n + m, n + m + 1
    return n + m + 2, e + f + [(x, p), (p, y), (z, q), (q, w), (p, q)]


def cases(tier, rng):
    big = tier == "thorough"
    yield "empty", lambda: run(0, [], "int", set, 0)
    for k, h in enumerate(generated("sub")):
        yield "gen-%d" % k, lambda h=h, k=k: run(len(h), arcs_of(h), style_of(k), container_of(k), k, False)
    for k, (n, e) in enumerate(atlas(0, 7)):
        deg = [sum(v in f for f in e) for v in range(n)]
        if max(deg, default=0) <= 3 or k % 5 == 0:
            for r in range(4 if big else 2):
                yield "atlas-%d-%d" % (k, r), lambda a=(n, e), k=k, r=r: run(*a, style_of(k + r), container_of(k), k * 9 + r)
    fams = [genpet(n, k) for n in range(3, 8) for k in (1, 2, 3) if 2 * k < n]
    fams += [moebius(n) for n in (4, 6, 8, 10, 12, 14)]
    base = [genpet(3, 1), genpet(4, 1), moebius(4), moebius(6), genpet(5, 2)]
    for b in base:
        for t in (1, 2, 3):
            m, e = inflate(rng, *b, t)
            if m <= 14:
                fams.append((m, e))
    K4 = (4, [(a, b) for a in range(4) for b in range(a)])
    fams += [bridged(rng, K4, K4), bridged(rng, K4, genpet(3, 1)), bridged(rng, K4, K4), bridged(rng, genpet(3, 1), moebius(6))]
    for k, (n, e) in enumerate(fams):
        for r in range(3):
            yield "fam-%d-%d" % (k, r), lambda a=(n, relabel(rng, n, e)), k=k, r=r: run(*a, style_of(k + r), container_of(k), k * 9 + r)
    for k in range(1500 if big else 400):
        n = rng.choice([6, 7, 8, 9, 10, 11, 12, 14] if k % 4 == 0 else [6, 7, 8, 9, 10])
        yield "rnd-%d" % k, lambda a=(n, subcubic(rng, n)), k=k, s=rng.getrandbits(30): run(*a, style_of(k), container_of(k), s)
    for k in range(200 if big else 60):      # inputs to refuse: one missing direction, a loop
        n = rng.choice([3, 4, 5, 6, 8])
        e = subcubic(rng, n)
        arcs = e + [(b, a) for a, b in e]
        if k % 3 == 0 or not arcs:
            v = rng.randrange(n)
            arcs.append((v, v))
        else:
            arcs.remove(rng.choice(arcs))
        yield "odd-%d" % k, lambda a=(n, arcs), k=k: run(*a, style_of(k), container_of(k), k, False)

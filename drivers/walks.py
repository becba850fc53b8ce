from graphlib import *


def run(n, arcs, k, style, seed, queries):
    """arcs (v, w, label) with labels 0..k-1."""
    from pads.repetitivity import NonrepetitiveGraph
    rng = random.Random(seed)
    items, labs = names(n, style, rng), names(k, STYLES[(seed // 3) % 5], rng)
    c, lc = Coder(items), Coder(labs)
    G = {}
    order = list(range(n))
    rng.shuffle(order)
    tails = {a[0] for a in arcs}
    heads = {a[1] for a in arcs}
    for v in order:
        if v in tails or v not in heads or rng.random() < .5:      # pure targets need no row
            row = {}
            for a, w, l in arcs:
                if a == v:
                    row.setdefault(items[w], []).append(labs[l])
            kind = rng.choice([list, set, tuple, frozenset])
            G[items[v]] = {w: kind(x) for w, x in row.items()}
    before = [(v, list(G[v].items())) for v in G]
    ops = []
    try:
        R = NonrepetitiveGraph(G)
        ops.append({"op": "verts", "r": c.seq(R)})
        for v in range(n):
            ops.append({"op": "labels", "v": v + 1, "r": lc.seq(R[items[v]])})
            ops.append({"op": "has", "v": v + 1, "r": items[v] in R})
        ops.append({"op": "has", "v": 0, "r": Opaque("no") in R})
        ops.append({"op": "cyclic", "r": [[c(v), c(w), lc(l)] for v, w, l in take(R.cyclic(), 5000)]})
        for v, l, w, m in queries:
            ops.append({"op": "reach", "v": v + 1, "l": l + 1, "r": [[c(x), lc(y)] for x, y in take(R.reachable(items[v], labs[l]), 5000)]})
            if labs[l] in R[items[v]]:
                try:
                    p = R.shortest(items[v], labs[l], items[w], labs[m])
                    ops.append({"op": "short", "v": v + 1, "l": l + 1, "w": w + 1, "m": m + 1, "r": c.seq(p)})
                except ValueError:
                    ops.append({"op": "noshort", "v": v + 1, "l": l + 1, "w": w + 1, "m": m + 1})
        ops.append({"op": "same", "r": before == [(v, list(G[v].items())) for v in G]})
    except Exception as e:
        ops.append(raised(e))
    return {"n": n, "arcs": [[v + 1, w + 1, l + 1] for v, w, l in arcs], "ops": ops}


def cases(tier, rng):
    big = tier == "thorough"
    yield "empty", lambda: run(0, [], 1, "int", 0, [])
    # every labelled digraph on two vertices with two labels, loops included
    poss = [(v, w, l) for v in range(2) for w in range(2) for l in range(2)]
    allq = [(v, l, w, m) for v in range(2) for l in range(2) for w in range(2) for m in range(2)]
    for b in range(256):
        arcs = [a for i, a in enumerate(poss) if b >> i & 1]
        yield "two-%d" % b, lambda arcs=arcs, b=b: run(2, arcs, 2, style_of(b), b, allq)
    poss3 = [(v, w, l) for v in range(3) for w in range(3) for l in range(2) if v != w]
    for b in range(0, 4096, 1 if big else 5):
        arcs = [a for i, a in enumerate(poss3) if b >> i & 1]
        q = [(rng.randrange(3), rng.randrange(2), rng.randrange(3), rng.randrange(2)) for _ in range(6)]
        yield "three-%d" % b, lambda arcs=arcs, b=b, q=q: run(3, arcs, 2, style_of(b), b, q)
    for i in range(2000 if big else 500):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10])
        k = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13])
        c = rng.random()
        m = rng.choice([n, 2 * n, 3 * n])
        if c < .3:          # a hub where many labels meet
            arcs = []
            for l in range(k):
                if n > 1:
                    arcs += [(rng.randrange(1, n), 0, l)] * (rng.random() < .6)
                    arcs += [(0, rng.randrange(1, n), l)] * (rng.random() < .6)
            arcs += [(rng.randrange(n), rng.randrange(n), rng.randrange(k)) for _ in range(n // 2)]
        elif c < .5:        # long alternating routes
            arcs = [(v, v + 1, rng.choice([v % 2, v % min(k, 3)]) % k) for v in range(n - 1)]
            arcs += [(rng.randrange(n), rng.randrange(n), rng.randrange(k)) for _ in range(3)]
        else:
            arcs = [(rng.randrange(n), rng.randrange(n), rng.randrange(k)) for _ in range(m)]
        arcs = sorted(set(arcs))
        q = []
        for _ in range(10):
            a = rng.choice(arcs) if arcs else (0, 0, 0)
            b = rng.choice(arcs) if arcs else (0, 0, 0)
            q.append((a[0], a[2], b[1], b[2]))
        q += [(rng.randrange(n), rng.randrange(k), rng.randrange(n), rng.randrange(k)) for _ in range(2)]
        yield "rnd-%d" % i, lambda a=(n, arcs, k), i=i, q=q, s=rng.getrandbits(30): run(*a, style_of(i), s, q)
    for i in range(60 if big else 20):
        n, k = rng.choice([20, 35]), rng.choice([2, 3, 17, 40])
        arcs = [(rng.randrange(1, n), 0, l) for l in range(k)] + [(0, rng.randrange(1, n), l) for l in range(k)] if i % 2 else []
        arcs += [(v, v + 1, rng.randrange(k)) for v in range(n - 1)]
        arcs += [(rng.randrange(n), rng.randrange(n), rng.randrange(k)) for _ in range(n)]
        arcs = sorted(set(arcs))
        q = []
        for _ in range(6):
            a, b = rng.choice(arcs), rng.choice(arcs)
            q.append((a[0], a[2], b[1], b[2]))
        yield "large-%d" % i, lambda a=(n, arcs, k), i=i, q=q, s=rng.getrandbits(30): run(*a, style_of(i), s, q)

from graphlib import *


def run(n, arcs, style, container, seed, orders=()):
    from pads.partial_order import TopologicalOrder, isTopologicalOrder, isAcyclic, TransitiveClosure
    from pads.acyclic_reachability import Reachability
    I = Inst(n, arcs, style, container, seed)
    G, before, ops = I.G, snapshot(I.G), []
    try:
        ops.append({"op": "acyclic", "r": bool(isAcyclic(G))})
        try:
            L = TopologicalOrder(G)
            ops.append({"op": "topo", "r": I.code.seq(L)})
        except ValueError:
            ops.append({"op": "notopo"})
        ops.append({"op": "closure", "r": I.back(TransitiveClosure(G))})
        try:
            R = Reachability(G)
        except ValueError:
            ops.append({"op": "noreach"})
        else:
            ops.append({"op": "reach", "r": [[bool(R.reachable(a, b)) for b in I.items] for a in I.items]})
        for o in orders:
            alien = Opaque("alien")
            L = [I.items[i - 1] if 1 <= i <= n else alien for i in o]
            ops.append({"op": "istopo", "l": list(o), "r": bool(isTopologicalOrder(G, L))})
        ops.append({"op": "same", "r": snapshot(G) == before})
    except Exception as e:
        ops.append(raised(e))
    return I.head(ops=ops)


def candidates(rng, n, arcs, k):
    """Orders near a topological one: swaps, repeats, omissions, strangers."""
    out = []
    pos = {v: i for i, v in enumerate(range(1, n + 1))}
    for _ in range(k):
        L = list(range(1, n + 1))
        rng.shuffle(L)
        c = rng.random()
        if c < .6:          # sort along arcs as far as possible
            for _ in range(n):
                at = {v: i for i, v in enumerate(L)}
                back = [(a + 1, b + 1) for a, b in arcs if at[a + 1] > at[b + 1]]
                if not back:
                    break
                a, b = rng.choice(back)
                L.remove(b)
                L.insert(L.index(a) + 1, b)
        if L:
            c = rng.random()
            if c < .15:
                L.insert(rng.randrange(len(L) + 1), rng.choice(L))
            elif c < .25:
                L.pop(rng.randrange(len(L)))
            elif c < .35:
                L[rng.randrange(len(L))] = rng.choice(L)
            elif c < .4:
                L.insert(rng.randrange(len(L) + 1), 0)
        out.append(L)
    return out


def dag(rng, n):
    p = list(range(n))
    rng.shuffle(p)
    d = rng.choice([.1, .2, .35, .6])
    c = rng.random()
    if c < .7:
        return [(p[i], p[j]) for i in range(n) for j in range(i + 1, n) if rng.random() < d]
    if c < .85:             # layers
        k = rng.randint(2, 4)
        return [(p[i], p[j]) for i in range(n) for j in range(n) if j % k == i % k + 1 and rng.random() < d]
    m = list(tree(rng, n, rng.random() < .5))
    return [(p[a], p[b]) if rng.random() < .8 else (p[b], p[a]) for a, b in m]


def cases(tier, rng):
    big = tier == "thorough"
    yield "empty", lambda: run(0, [], "int", set, 0, [[], [0]])
    for name in ("d3", "d4"):
        for k, h in enumerate(generated(name)):
            if name == "d4" and not big and k % 2:
                continue
            n, arcs = len(h), arcs_of(h)
            o = [list(p) for p in itertools.permutations(range(1, n + 1))] if n < 4 else candidates(rng, n, arcs, 4)
            if n < 4 and k % 4 == 0:
                o += [list(p) for p in itertools.product(range(0, n + 1), repeat=n)]
                o += [[1, 1, 2, 3], [1, 2, 2, 3], [1, 2, 3, 3], [1, 2], [], [1, 2, 3, 1], [3, 2, 1, 0]]
            yield "gen-%s-%d" % (name, k), lambda a=(n, arcs), k=k, o=o: run(*a, style_of(k), container_of(k), k, o)
    for k in range(1500 if big else 400):
        n = rng.choice([5, 6, 7, 8, 10, 13, 18, 25])
        arcs = dag(rng, n)
        if rng.random() < .3:
            arcs = directed(rng, n)
        elif rng.random() < .3 and arcs:
            a, b = rng.choice(arcs)
            arcs = arcs + [(b, a)]
        yield "rnd-%d" % k, lambda a=(n, arcs), k=k, s=rng.getrandbits(30), o=candidates(rng, n, arcs, 6): run(
            *a, style_of(k), container_of(k), s, o)
    for k, n, arcs, s in larges(rng, 40 if big else 12, (40, 70, 110), dag):
        if k % 4 == 3 and arcs:
            arcs = arcs + [arcs[s % len(arcs)][::-1]]
        yield "large-%d" % k, lambda a=(n, arcs), k=k, s=s, o=candidates(rng, n, arcs, 3): run(*a, style_of(k), container_of(k), s, o)
    for k, (name, n, e, s) in enumerate(dirshapes(rng)):
        yield "shape-" + name, lambda n=n, e=e, k=k, s=s: run(n, e, style_of(k), container_of(k), s, candidates(random.Random(s), n, e, 2))
    n = 1200                # deep chains
    yield "chain", lambda: run_deep(n)


def run_deep(n):
    from pads.partial_order import TopologicalOrder, isAcyclic
    I = Inst(n, [(i + 1, i) for i in range(n - 1)], "int", list, 3)
    ops = []
    try:
        ops.append({"op": "acyclic", "r": bool(isAcyclic(I.G))})
        ops.append({"op": "topo", "r": I.code.seq(TopologicalOrder(I.G))})
    except Exception as e:
        ops.append(raised(e))
    return I.head(ops=ops)

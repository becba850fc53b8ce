from graphlib import *
from topo import dag


def closure(n, arcs):
    adj = [set() for _ in range(n)]
    for a, b in arcs:
        adj[a].add(b)
    out = []
    for v in range(n):
        seen, todo = set(), [v]
        while todo:
            for w in adj[todo.pop()]:
                if w not in seen:
                    seen.add(w)
                    todo.append(w)
        out.append(sorted(seen))
    return out


def konig(n, adj):
    """Links head->tail of a maximum matching, and tails/heads touching every arc."""
    link = {}

    def grow(v, seen):
        for w in adj[v]:
            if w not in seen:
                seen.add(w)
                if w not in link or grow(link[w], seen):
                    link[w] = v
                    return True
        return False
    for v in range(n):
        grow(v, set())
    S = set(range(n)) - set(link.values())
    T = set()
    todo = list(S)
    while todo:
        for w in adj[todo.pop()]:
            if w not in T:
                T.add(w)
                if link[w] not in S:
                    S.add(link[w])
                    todo.append(link[w])
    return link, sorted(set(range(n)) - S), sorted(T)


def run(n, arcs, style, container, seed):
    from pads.partial_order import MinimumPathDecomposition, MinimumChainDecomposition, MaximumAntichain
    I = Inst(n, arcs, style, container, seed)
    G, before, ops = I.G, snapshot(I.G), []
    adj = [[w for v, w in I.arcs if v == u] for u in range(n)]
    link, S, T = konig(n, adj)
    C = closure(n, arcs)
    clink, cS, cT = konig(n, C)
    anti = [v + 1 for v in range(n) if v not in cS and v not in cT]
    nxt = {t: h for h, t in clink.items()}
    chains = []
    for v in range(n):
        if v not in clink:
            c = [v]
            while c[-1] in nxt:
                c.append(nxt[c[-1]])
            chains.append([x + 1 for x in c])
    try:
        ops.append({"op": "paths", "r": [I.code.seq(p) for p in take(MinimumPathDecomposition(G), 2 * n)],
                    "s": [v + 1 for v in S], "t": [v + 1 for v in T]})
        ops.append({"op": "chains", "r": [I.code.seq(p) for p in take(MinimumChainDecomposition(G), 2 * n)], "a": anti})
        ops.append({"op": "antichain", "r": I.code.seq(MaximumAntichain(G)), "c": chains})
        ops.append({"op": "same", "r": snapshot(G) == before})
    except Exception as e:
        ops.append(raised(e))
    return I.head(ops=ops)


def run_trace(n, arcs, style, container, seed):
    from pads.partial_order import TracePaths
    I = Inst(n, arcs, style, container, seed)
    before, ops = snapshot(I.G), []
    try:
        ops.append({"op": "traced", "r": [I.code.seq(p) for p in take(TracePaths(I.G), 2 * n)]})
        ops.append({"op": "same", "r": snapshot(I.G) == before})
    except Exception as e:
        ops.append(raised(e))
    return I.head(ops=ops)


def run_cyclic(n, arcs, style, container, seed):
    from pads.partial_order import MaximumAntichain
    I = Inst(n, arcs, style, container, seed)
    ops = []
    try:
        A = MaximumAntichain(I.G)
        ops.append({"op": "antichain", "r": I.code.seq(A), "c": [[v + 1] for v in range(n)]})
    except ValueError:
        ops.append({"op": "noanti"})
    except Exception as e:
        ops.append(raised(e))
    return I.head(ops=ops)


def cases(tier, rng):
    big = tier == "thorough"
    yield "empty", lambda: run(0, [], "int", set, 0)
    for k, h in enumerate(generated("dag")):
        for r in range(12 if big else 5):
            yield "gen-%d-%d" % (k, r), lambda h=h, k=k, r=r: run(len(h), arcs_of(h), style_of(k), container_of(k + r), k * 50 + r)
    for k in range(2000 if big else 600):
        n = rng.choice([5, 6, 7, 8, 9, 11, 14, 18])
        yield "rnd-%d" % k, lambda a=(n, dag(rng, n)), k=k, s=rng.getrandbits(30): run(*a, style_of(k), container_of(k), s)
    for k in range(600 if big else 150):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20])
        p = list(range(n))
        rng.shuffle(p)
        arcs = [(p[i], p[i + 1]) for i in range(n - 1) if rng.random() < .7]
        yield "paths-%d" % k, lambda a=(n, arcs), k=k, s=rng.getrandbits(30): run_trace(*a, style_of(k), container_of(k), s)
    for k in range(40):
        n = rng.choice([2, 3, 4, 6])
        p = rng.sample(range(n), rng.randint(1, n))
        arcs = list(zip(p, p[1:] + p[:1])) + random_edges(rng, n, .2)
        yield "cyclic-%d" % k, lambda a=(n, arcs), k=k: run_cyclic(*a, style_of(k), container_of(k), k)
    for k, n, arcs, s in larges(rng, 60 if big else 20, (30, 45, 60), dag):
        yield "large-%d" % k, lambda a=(n, arcs), k=k, s=s: run(*a, style_of(k), container_of(k), s)
    for k, (name, n, e, s) in enumerate(dirshapes(rng)):
        if name.endswith("-fwd"):
            yield "shape-" + name, lambda a=(n, e), k=k, s=s: run(*a, style_of(k), container_of(k), s)

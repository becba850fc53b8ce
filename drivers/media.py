from graphlib import *


def system(M, sc, tc, used):
    S, T = take(M.states(), 500), take(M.tokens(), 500)
    return {"op": "system", "used": used, "s": sc.seq(take(iter(M), 500)), "len": len(M), "t": tc.seq(T),
            "rev": [[tc(t), tc(M.reverse(t))] for t in T],
            "act": [[sc(s), tc(t), sc(M.action(s, t))] for s in S for t in T],
            "get": [[sc(s), tc(t), sc(M[s][t] if k % 2 else M(s, t))] for k, s in enumerate(S) for t in (M[s] if k % 2 else T)]}


def bits_of(x):
    return [i for i in range(x.bit_length()) if x >> i & 1]


def routes(M, sc, tc):
    from pads.medium import RoutingTable, MediumError
    try:
        R = RoutingTable(M)
    except MediumError:
        return {"op": "noroutes"}
    return {"op": "routes", "r": [[sc(a), sc(b), tc(R[a, b])] for a, b in R]}


def graph(G, sc, tc):
    return {"op": "graph", "r": [[sc(a), sc(b), tc(G[a][b])] for a in G for b in G[a]]}


def run_bits(vec, L, seed):
    from pads.medium import BitvectorMedium, ExplicitMedium, LabeledGraphMedium, StateTransitionGraph, HypercubeEmbedding
    vec = list(vec)
    random.Random(seed).shuffle(vec)
    sc = Coder(vec)
    tc = Coder([(i // 2, bool(i % 2)) for i in range(2 * L)])
    ops = []
    try:
        M = BitvectorMedium([iter, list, set, tuple][seed % 4](vec), L)
        E = ExplicitMedium(M)
        ops.append(system(M, sc, tc, False))
        ops.append(system(E, sc, tc, False))
        ops.append({"op": "effective", "r": [[sc(s), tc.seq(M.effective(s))] for s in M]})
        for X in (M, E):
            G = StateTransitionGraph(X)
            ops.append(graph(G, sc, tc))
            ops.append(routes(X, sc, tc))
            H = HypercubeEmbedding(X)
            ops.append({"op": "embed", "r": [[sc(s), bits_of(H[s])] for s in H]})
        B = LabeledGraphMedium(G)
        ops.append(system(B, sc, tc, True))
        ops.append(system(ExplicitMedium(B), sc, tc, True))
        ops.append(routes(B, sc, tc))
        H = HypercubeEmbedding(B)
        ops.append({"op": "embed", "r": [[sc(s), bits_of(H[s])] for s in H]})
    except Exception as e:
        ops.append(raised(e))
    return {"kind": "bits", "vec": [bits_of(x) for x in vec], "len": L, "ops": ops}


def run_far(vec, L, seed):
    """Many states: only the transition graph, the routes and the coordinates."""
    from pads.medium import BitvectorMedium, ExplicitMedium, LabeledGraphMedium, StateTransitionGraph, HypercubeEmbedding
    vec = list(vec)
    random.Random(seed).shuffle(vec)
    sc = Coder(vec)
    tc = Coder([(i // 2, bool(i % 2)) for i in range(2 * L)])
    ops = []
    try:
        M = BitvectorMedium(vec, L)
        if seed % 3:
            M = ExplicitMedium(M) if seed % 3 == 1 else LabeledGraphMedium(StateTransitionGraph(M))
        ops.append(dict(graph(StateTransitionGraph(M), sc, tc), op="fargraph"))
        r = routes(M, sc, tc)
        ops.append(dict(r, op="far" + r["op"]))
        H = HypercubeEmbedding(M)
        ops.append({"op": "farembed", "r": [[sc(s), bits_of(H[s])] for s in H]})
    except Exception as e:
        ops.append(raised(e))
    return {"kind": "far", "vec": [bits_of(x) for x in vec], "len": L, "ops": ops}


def many(rng):
    """A large family grown so that it stays well graded: a down-set, the ideals
    of an order, a grid, a path, or a cube, turned over."""
    c = rng.randrange(5)
    if c == 0:
        L = rng.choice([6, 7, 7])
        F = set(range(1 << L))
    elif c == 1:
        L = rng.randint(8, 11)
        F = {0}
        while len(F) < rng.choice([50, 90, 120]):
            x = sum(1 << i for i in rng.sample(range(L), rng.randint(1, 5)))
            F |= {y for y in range(x + 1) if y & x == y}
    elif c == 2:
        L = rng.randint(8, 12)
        rel = [(i, j) for i in range(L) for j in range(i + 1, L) if rng.random() < .35]
        F = {x for x in range(1 << L) if all(x >> i & 1 or not x >> j & 1 for i, j in rel)}
    elif c == 3:
        a, b = rng.randint(5, 11), rng.randint(5, 9)
        L = a + b
        F = {(1 << i) - 1 | ((1 << j) - 1) << a for i in range(a + 1) for j in range(b + 1)}
    else:
        L = rng.randint(60, 110)
        F = {(1 << i) - 1 for i in range(L + 1)}
    flat = rng.getrandbits(L)
    return sorted(x ^ flat for x in F), L


def run_labels(n, rows, style, seed):
    """rows[v]: {w: token number}"""
    from pads.medium import LabeledGraphMedium, ExplicitMedium, MediumError, StateTransitionGraph, HypercubeEmbedding
    rng = random.Random(seed)
    items = names(n, style, rng)
    k = max([t for r in rows for t in r.values()], default=0)
    toks = names(k, STYLES[seed % 5], rng)
    sc, tc = Coder(items), Coder(toks)
    order = list(range(n))
    rng.shuffle(order)
    G = {}
    for v in order:
        nb = list(rows[v])
        rng.shuffle(nb)
        G[items[v]] = {items[w]: toks[rows[v][w] - 1] for w in nb}
    before, ops = snapshot(G), []
    try:
        try:
            M = LabeledGraphMedium(G)
        except MediumError:
            ops.append({"op": "refused"})
        else:
            ops.append(system(M, sc, tc, False))
            ops.append(system(ExplicitMedium(M), sc, tc, False))
            ops.append(graph(StateTransitionGraph(M), sc, tc))
            ops.append(routes(M, sc, tc))
            H = HypercubeEmbedding(M)
            ops.append({"op": "embed", "r": [[sc(s), bits_of(H[s])] for s in H]})
        ops.append({"op": "same", "r": snapshot(G) == before})
    except Exception as e:
        ops.append(raised(e))
    return {"kind": "labels", "rows": [[[w + 1, t] for w, t in r.items()] for r in rows], "ops": ops}


def run_table(act, rev, style, seed):
    """A token system written by the user: act[s][t], rev[t], numbered from 1."""
    from pads.medium import Medium, ExplicitMedium, StateTransitionGraph, MediumError
    rng = random.Random(seed)
    items, toks = names(len(act), style, rng), names(len(rev), STYLES[seed % 5], rng)
    sc, tc = Coder(items), Coder(toks)

    class Table(Medium):
        def states(self):
            return iter(items)

        def tokens(self):
            return iter(toks)

        def reverse(self, t):
            return toks[rev[tc(t) - 1] - 1]

        def action(self, s, t):
            return items[act[sc(s) - 1][tc(t) - 1] - 1]
    ops = []
    try:
        M = Table()
        E = ExplicitMedium(M)
        for X in (M, E):
            ops.append(system(X, sc, tc, False))
            ops.append({"op": "effective", "r": [[sc(s), tc.seq(X.effective(s))] for s in X]})
            try:
                G = StateTransitionGraph(X)
            except MediumError:
                ops.append({"op": "nograph"})
            else:
                ops.append(graph(G, sc, tc))
    except Exception as e:
        ops.append(raised(e))
    return {"kind": "table", "act": act, "rev": rev, "ops": ops}


def family(rng, L):
    """Bit vectors that usually form a medium."""
    c = rng.randrange(6)
    full = range(1 << L)
    if c == 0:              # down-set
        F = {0}
        for _ in range(rng.randint(1, 5)):
            x = rng.randrange(1 << L)
            F |= {y for y in full if y & x == y}
    elif c == 1:            # band of levels
        a = rng.randint(0, L)
        b = rng.randint(a, L) if rng.random() < .8 else a
        F = {x for x in full if a <= bin(x).count("1") <= b}
    elif c == 2:            # ideals of a random order
        rel = [(i, j) for i in range(L) for j in range(i + 1, L) if rng.random() < .3]
        F = {x for x in full if all(x >> i & 1 or not x >> j & 1 for i, j in rel)}
    elif c == 3:            # grown one flip at a time
        F = {0}
        for _ in range(rng.randint(0, 12)):
            F.add(rng.choice(sorted(F)) ^ 1 << rng.randrange(L))
    elif c == 4:            # tree-like: one new coordinate for each new state
        F = {0}
        for i in range(L):
            F.add(rng.choice(sorted(F)) ^ 1 << i)
    else:
        F = set(rng.sample(full, rng.randint(1, min(8, 1 << L))))
    m = rng.randrange(1 << L)
    F = {x ^ m for x in F}
    if len(F) > 24:
        F = set(rng.sample(sorted(F), 24)) if rng.random() < .2 else set(sorted(F)[:24])
    if rng.random() < .1 and len(F) > 1:
        F.discard(rng.choice(sorted(F)))
    return sorted(F)


def labelled(rng, vec, L):
    """Transition graph of the family, with tokens numbered."""
    rows = [{} for _ in vec]
    for a, x in enumerate(vec):
        for b, y in enumerate(vec):
            d = x ^ y
            if d and d & (d - 1) == 0:
                i = d.bit_length() - 1
                rows[a][b] = 2 * i + (1 if y & d else 0) + 1
    return rows


def corrupt(rng, rows):
    rows = [dict(r) for r in rows]
    n = len(rows)
    edges = [(v, w) for v in range(n) for w in rows[v]]
    top = max([t for r in rows for t in r.values()], default=0)
    c = rng.randrange(7)
    if not edges or n < 2:
        return rows
    v, w = rng.choice(edges)
    if c == 0:              # one label changed
        rows[v][w] = rng.randint(1, top + 1)
    elif c == 1:            # one edge lost
        rows[v].pop(w)
        rows[w].pop(v, None)
    elif c == 2:            # one direction lost
        rows[v].pop(w)
    elif c == 3:            # an edge added
        a, b = rng.sample(range(n), 2)
        t = rng.randint(1, top + 1)
        rows[a][b] = t
        rows[b][a] = t + 1 if t % 2 else t - 1
    elif c == 4:            # two coordinates merged
        p, q = rng.randint(0, top // 2), rng.randint(0, top // 2)
        for r in rows:
            for x in r:
                if (r[x] - 1) // 2 == p:
                    r[x] = 2 * q + 1 + (r[x] - 1) % 2
    elif c == 5:            # a token made its own reverse
        t = rows[v][w]
        u = rows[w].get(v, t)
        for r in rows:
            for x in r:
                if r[x] == u:
                    r[x] = t
    else:                   # a coordinate split
        t = rows[v][w]
        for a in range(n):
            for b in rows[a]:
                if a <= v and rows[a][b] == t and a in rows[b]:
                    rows[a][b], rows[b][a] = top + 1, top + 2
    return rows


def cases(tier, rng):
    big = tier == "thorough"
    k = 0
    for h in generated("mm"):
        if h["k"] == "b":
            vec = [sum(1 << i for i in s) for s in h["v"]]
            yield "gen-%d" % k, lambda vec=vec, k=k: run_bits(vec, 3 + k % 2, k)
            yield "genlab-%d" % k, lambda vec=vec, k=k: run_labels(len(vec), labelled(None, vec, 3), style_of(k), k)
            k += 1
    for k in range(1200 if big else 300):
        L = rng.choice([1, 2, 3, 4, 4, 5, 6])
        vec = family(rng, L)
        yield "bits-%d" % k, lambda vec=vec, L=L, k=k: run_bits(vec, L, k)
    for k in range(600 if big else 150):
        n, t = rng.randint(1, 5), rng.randint(1, 6)
        p = rng.choice([.2, .4, .8])
        act = [[rng.randint(1, n) if rng.random() < p else s for _ in range(t)] for s in range(1, n + 1)]
        rev = [rng.randint(1, t) for _ in range(t)]
        yield "table-%d" % k, lambda a=(act, rev), k=k: run_table(*a, style_of(k), k)
    for k in range(60 if big else 15):      # long vectors, few states
        L = rng.choice([31, 33, 34, 40, 64, 66])
        if k % 3 == 0:
            vec = [(1 << i) - 1 << (L - 6) for i in range(6)]
        else:
            at = rng.sample(range(L), 4)
            flat = rng.getrandbits(L)
            vec = [sum(1 << at[i] for i in range(4) if x >> i & 1) ^ flat for x in family(rng, 4)][:10]
        yield "wide-%d" % k, lambda vec=vec, L=L, k=k: run_bits(vec, L, k)
    for k in range(2500 if big else 600):
        L = rng.choice([1, 2, 3, 4, 4, 5])
        vec = family(rng, L)[:12]
        rows = labelled(rng, vec, L)
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            rows = corrupt(rng, rows)
        yield "lab-%d" % k, lambda a=(len(vec), rows), k=k: run_labels(*a, style_of(k), k)
    far = 0
    while far < (60 if big else 14):
        vec, L = many(rng)
        if 30 <= len(vec) <= 160:
            yield "far-%d" % far, lambda a=(vec, L), k=far: run_far(*a, k)
            far += 1
    yield "cube-8", lambda: run_far(range(256), 8, 0)

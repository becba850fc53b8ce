from graphlib import *


def run(left, right, adj, style, container, seed, shared=False, chain=False):
    """adj[i]: right neighbours of left vertex i (0-based)."""
    from pads.bipartite_matching import matching, imperfections
    rng = random.Random(seed)
    L = names(left, style, rng)
    R = names(right, style, rng) if shared else [("r", x) for x in names(right, style, rng)]
    lc, rc = Coder(L), Coder(R)
    order = list(range(left))
    if not chain:
        rng.shuffle(order)
    G = {}
    for i in order:
        nb = [R[j] for j in adj[i]]
        if not chain:
            rng.shuffle(nb)
        G[L[i]] = container(nb) if container is not dict else {x: True for x in nb}
    before = snapshot(G)
    ops = []
    try:
        M, A, B = matching(G)
        ops.append({"op": "bip", "m": [[rc(v), lc(M[v])] for v in M], "a": lc.seq(A), "b": rc.seq(B)})
        if chain:
            ops.append({"op": "same", "r": snapshot(G) == before})
            return {"adj": [[j + 1 for j in row] for row in adj], "ops": ops}
        H = imperfections(G)
        rows = [[lc(u), [rc(v) for v in H[u]]] for u in H]
        why = []
        for u in H:
            if isinstance(H[u], dict) and not isinstance(G[u], dict) or (isinstance(H[u], dict) and H is not G):
                for v in H[u]:
                    S = H[u][v]
                    if hasattr(S, "keys"):
                        why.append([lc(u), rc(v), [[lc(a), sorted(rc(b) for b in S[a])] for a in S]])
        ops.append({"op": "imperf", "r": rows, "why": why})
        ops.append({"op": "same", "r": snapshot(G) == before})
    except Exception as e:
        ops.append(raised(e))
    return {"adj": [[j + 1 for j in row] for row in adj], "ops": ops}


def cases(tier, rng):
    big = tier == "thorough"
    yield "empty", lambda: run(0, 0, [], "int", list, 0)
    for n in (300, 1300):       # one alternating path through everything
        adj = [[i, i + 1] for i in range(n)] + [[0]]
        yield "chain-%d" % n, lambda adj=adj, n=n: run(n + 1, n + 1, adj, "int", list, 0, chain=True)
        adj = [[i + 1, i] for i in range(n - 1, -1, -1)] + [[n]]
        yield "back-%d" % n, lambda adj=adj, n=n: run(n + 1, n + 1, adj, "int", list, 0, chain=True)
    for name, right in (("b33", 3), ("b43", 3), ("b34", 4)):
        for k, h in enumerate(generated(name)):
            if name != "b33" and not big and k % 3:
                continue
            adj = [[j - 1 for j in row] for row in h]
            yield "gen-%s-%d" % (name, k), lambda adj=adj, k=k, right=right: run(
                len(adj), right, adj, style_of(k), container_of(k), k, k % 4 == 0)
    for k in range(3000 if big else 800):
        c = rng.random()
        left = rng.choice([2, 4, 5, 6, 8, 12, 20])
        right = left if c < .5 else rng.randint(1, 2 * left)
        if c < .25:         # a perfect matching plus block-triangular noise: many forced edges
            p = list(range(left))
            rng.shuffle(p)
            adj = [[p[i]] + [p[j] for j in range(i + 1, left) if rng.random() < .25] for i in range(left)]
            for _ in range(rng.randint(0, 3)):
                i, j = rng.randrange(left), rng.randrange(left)
                if j not in adj[i]:
                    adj[i].append(j)
        elif c < .35:       # long alternating paths
            adj = [[i, i + 1] for i in range(left)]
            right = left + 1
            if rng.random() < .5:
                adj[-1] = [left - 1]
        else:
            d = rng.choice([.1, .2, .35, .6])
            adj = [[j for j in range(right) if rng.random() < d] for _ in range(left)]
        yield "rnd-%d" % k, lambda a=(left, right, adj), k=k, s=rng.getrandbits(30): run(
            *a, style_of(k), container_of(k), s, k % 4 == 0)
    for k, (left, right) in enumerate((a, b) for a in (1, 2, 3, 5, 8, 12) for b in (1, 2, 3, 5, 8, 12)):
        adj = [list(range(right)) for _ in range(left)]
        for t in range(3):
            s = rng.getrandbits(30)
            if t == 1:
                adj = [[j for j in row if (i, j) != (s % left, s // 20 % right)] for i, row in enumerate(adj)]
            elif t == 2:        # everything but a matching
                adj = [[j for j in range(right) if i != j] for i in range(left)]
            yield "full-%d-%d" % (k, t), lambda a=(left, right, adj), k=k, s=s: run(*a, style_of(k), container_of(k), s, k % 4 == 0)

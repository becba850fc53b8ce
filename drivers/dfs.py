from graphlib import *

KIND = {}


def run(I, start, queries, abandon=False):
    from pads import dfs
    kind = {dfs.forward: 1, dfs.reverse: -1, dfs.nontree: 0}
    args = (I.G,) if start is None else (I.G, I.items[start])
    ops = []
    if abandon:                 # a search given up half way must not disturb later ones
        take(dfs.search(*args), I.n)
        take(dfs.preorder(*args), I.n // 2)
    try:
        lim = 4 * len(I.arcs) + 4 * I.n + 10
        for v, w, t in take(dfs.search(*args), lim):
            ops.append({"op": "arc", "v": I.code(v), "w": I.code(w), "t": kind.get(t, 7)})
        ops.append({"op": "done"})
        ops.append({"op": "pre", "r": I.code.seq(take(dfs.preorder(*args), lim))})
        ops.append({"op": "post", "r": I.code.seq(take(dfs.postorder(*args), lim))})
        for a, b in queries:
            ops.append({"op": "reach", "v": a + 1, "w": b + 1, "r": bool(dfs.reachable(I.G, I.items[a], I.items[b]))})

        log = []

        class S(dfs.Searcher):
            def preorder(self, parent, child):
                log.append((parent, child, 1))

            def postorder(self, parent, child):
                log.append((parent, child, -1))

            def backedge(self, source, destination):
                log.append((source, destination, 0))
        S(I.G)
        ops.append({"op": "again"})
        for v, w, t in log[:lim]:
            ops.append({"op": "arc", "v": I.code(v), "w": I.code(w), "t": t})
        ops.append({"op": "done"})
    except Exception as e:
        ops.append(raised(e))
    return I.head(start=0 if start is None else start + 1, ops=ops)


def cases(tier, rng):
    big = tier == "thorough"
    yield "empty", lambda: run(Inst(0, []), None, [])
    for k, h in enumerate(generated("dg")):
        n = len(h)
        st = None if k % 2 else k % n
        q = [(a, b) for a in range(n) for b in range(n)] if k % 4 == 0 else [(k % n, (k // 3) % n)]
        yield "gen-%d" % k, lambda h=h, k=k, st=st, q=q: run(
            Inst(len(h), arcs_of(h), style_of(k), container_of(k), k), st, q, k % 5 == 0)
    for k in range(1500 if big else 400):
        n = rng.choice([1, 2, 5, 8, 12, 20, 40])
        e = directed(rng, n)
        st = rng.choice([None, rng.randrange(n)])
        q = [(rng.randrange(n), rng.randrange(n)) for _ in range(6)]
        yield "rnd-%d" % k, lambda n=n, e=e, st=st, q=q, k=k, s=rng.getrandbits(30): run(
            Inst(n, e, style_of(k), container_of(k), s), st, q, k % 5 == 0)
    n = 1200                    # deeper than any recursion limit
    yield "deep", lambda: run(Inst(n, [(i, i + 1) for i in range(n - 1)]), 0, [(0, n - 1), (5, 2)])
    for k, (name, n, e, s) in enumerate(dirshapes(rng)):
        if n:
            q = [(s % n, s // 7 % n), (s // 11 % n, s // 13 % n)]
            yield "shape-" + name, lambda n=n, e=e, q=q, k=k, s=s: run(
                Inst(n, e, style_of(k), container_of(k), s), None if k % 2 else s % n, q, k % 5 == 0)

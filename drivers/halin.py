from graphlib import *


class Refused(Exception):
    pass


def run(n, edges, style, container, seed, plan=None):
    from pads import halin
    I = Inst(n, edges, style, container, seed, True)
    G, c, before, ops = I.G, I.code, snapshot(I.G), []
    try:
        ops.append({"op": "classes", "k4": bool(halin.is_K4(G)), "wheel": bool(halin.is_wheel(G)),
                    "dual": bool(halin.is_dual_3_tree(G)), "red": bool(halin.is_D3_reducible(G)),
                    "halin": bool(halin.is_halin(G))})
        if plan is not None:
            ops[-1].update(op="wide", plan=I.code.seq([I.items[v] for v in plan]))
        try:
            ops.append({"op": "leaves", "r": c.seq(halin.halin_leaf_vertices(G))})
        except TypeError:
            ops.append({"op": "noleaves"})
        try:
            ops.append({"op": "ham", "r": I.back(halin.hamiltonian_cycle_D3(G))})
        except TypeError:
            ops.append({"op": "noham"})
        H = {}

        def initialize(K):
            if not halin.is_K4(K):
                raise Refused()
            H.update({v: set(K[v]) for v in K})

        def triangle(_, u, v, w, Nu, Nv, Nw, x):
            del H[x]
            for p, q, other in ((u, Nu, (v, w)), (v, Nv, (u, w)), (w, Nw, (u, v))):
                H[q].remove(x)
                H[q].add(p)
                H[p] = {q, *other}

        def path(_, u, v, w, x):
            H[u].remove(w)
            H[w].remove(u)
            H[v] = {u, w, x}
            for y in (u, w, x):
                H[y].add(v)
        try:
            halin.reconstruct_D3(G, initialize, triangle, path)
            ops.append({"op": "rebuilt", "r": I.back(H)})
        except Refused:
            ops.append({"op": "norebuild"})
        if n == 4:
            for s in ([], I.items[:2], I.items):
                ops.append({"op": "outerk4", "s": c.seq(s), "r": bool(halin.is_outer_K4(G, set(s)))})
        ops.append({"op": "same", "r": snapshot(G) == before})
    except Exception as e:
        ops.append(raised(e))
    return I.head(ops=ops)


def run_directed(n, arcs, style, container, seed):
    from pads import halin
    I = Inst(n, arcs, style, container, seed)
    ops = []
    for f in (halin.is_D3_reducible, halin.is_halin, halin.is_wheel, halin.is_dual_3_tree, halin.halin_leaf_vertices, halin.hamiltonian_cycle_D3):
        try:
            f(I.G)
            ops.append({"op": "answered"})
        except TypeError:
            ops.append({"op": "refused"})
        except Exception as e:
            ops.append(raised(e))
    return I.head(ops=ops)


def run_small(n, arcs, style, container, seed):
    """Any directed graph, with loops or not."""
    from pads import halin
    I = Inst(n, arcs, style, container, seed)
    ops = []
    try:
        ops.append({"op": "k4", "r": bool(halin.is_K4(I.G))})
        for s in ([], I.items[:2], I.items):
            ops.append({"op": "outerk4", "s": I.code.seq(s), "r": bool(halin.is_outer_K4(I.G, set(s)))})
    except Exception as e:
        ops.append(raised(e))
    return I.head(ops=ops)


def halin_graph(rng, n):
    """Random plane tree without vertices of degree two, plus its leaf cycle."""
    kids = {0: [1, 2, 3]}
    have = 4
    leaves = [1, 2, 3]
    while have < n:
        if rng.random() < .55 and have + 1 < n:
            v = rng.choice(leaves)
            kids[v] = [have, have + 1]
            leaves.remove(v)
            leaves += [have, have + 1]
            have += 2
        else:
            v = rng.choice(list(kids))
            kids[v].insert(rng.randint(0, len(kids[v])), have)
            leaves.append(have)
            have += 1
    order = []

    def walk(v):
        for w in kids.get(v, ()):
            walk(w)
        if v not in kids:
            order.append(v)
    walk(0)
    e = [(v, w) for v in kids for w in kids[v]]
    return have, e, order


def grow_d3(rng, n, tri, pth):
    """Undo reductions starting from K4."""
    adj = {v: {w for w in range(4) if w != v} for v in range(4)}
    while len(adj) < n:
        three = [v for v in adj if len(adj[v]) == 3]
        k = len(adj)
        pairs = [(u, w, x) for u in three for w in adj[u] if len(adj[w]) == 3 for x in adj[u] & adj[w]]
        if tri and (rng.random() < .5 or not pth or not pairs):
            if not three:
                break
            v = rng.choice(three)
            x, y, z = adj[v]
            adj[k], adj[k + 1] = {v, k + 1, y}, {v, k, z}
            adj[v] = {x, k, k + 1}
            adj[y].remove(v)
            adj[y].add(k)
            adj[z].remove(v)
            adj[z].add(k + 1)
        elif pth and pairs:
            u, w, x = rng.choice(pairs)
            adj[u].remove(w)
            adj[w].remove(u)
            adj[k] = {u, w, x}
            for y in (u, w, x):
                adj[y].add(k)
        else:
            break
    return len(adj), [(a, b) for a in adj for b in adj[a] if a < b]


def rewire(rng, n, e):
    e = list(e)
    c = rng.random()
    if c < .4:              # swap the ends of two edges
        (a, b), (x, y) = rng.sample(e, 2)
        if len({a, b, x, y}) == 4:
            e.remove((a, b))
            e.remove((x, y))
            e += [(a, x), (b, y)]
    elif c < .7:
        e.pop(rng.randrange(len(e)))
        if c < .6:
            e.append(tuple(rng.sample(range(n), 2)))
    else:
        e.append(tuple(rng.sample(range(n), 2)))
    return simple(e)


def cases(tier, rng):
    big = tier == "thorough"
    for k, h in enumerate(generated("at")):
        edges = [(a, b) for a, b in arcs_of(h) if a < b]
        if len(h) and min(len(r) for r in h) >= 3:
            reps = 12 if big else 6
        else:
            reps = 1 if len(h) < 7 or big or k % 3 == 0 else 0
        for r in range(reps):
            yield "atlas-%d-%d" % (k, r), lambda a=(len(h), edges), k=k, r=r: run(*a, style_of(k + r), container_of(k + r), k * 20 + r)
    for k in range(2500 if big else 500):
        n = rng.choice([5, 6, 7, 8, 9, 10, 11, 12] + [14] * big)
        c = rng.random()
        if c < .5:
            n, t, order = halin_graph(rng, n)
            if rng.random() < .3:           # leaves in a crossed order
                i, j = rng.sample(range(len(order)), 2)
                order[i], order[j] = order[j], order[i]
            e = simple(t + list(zip(order, order[1:] + order[:1])))
        elif c < .9:
            n, e = grow_d3(rng, n, rng.random() < .8, rng.random() < .8)
        else:
            e = [(0, i) for i in range(1, n)] + [(i, i + 1) for i in range(1, n - 1)] + [(1, n - 1)]
        if rng.random() < .25:
            e = rewire(rng, n, e)
        yield "rnd-%d" % k, lambda a=(n, e), k=k, s=rng.getrandbits(30): run(*a, style_of(k), container_of(k), s)
    for k in range(48):     # nearly complete, with loops and lost arcs
        n = 4 if k % 6 else rng.choice([3, 5])
        arcs = [(a, b) for a in range(n) for b in range(n) if a != b]
        if k % 2:
            arcs.append((k // 2 % n, k // 2 % n))
        if k % 3 == 2:
            arcs.remove(rng.choice(arcs))
        if k % 12 == 9:
            arcs += [(a, a) for a in range(n) if (a, a) not in arcs]
        yield "k4-%d" % k, lambda a=(n, arcs), k=k: run_small(*a, style_of(k), container_of(k), k)
    for k in range(30):
        n, e = grow_d3(rng, 7, True, True)
        arcs = e + [(b, a) for a, b in e]
        if k % 3 == 0:
            arcs.append((k % n, k % n))
        else:
            arcs.remove(rng.choice(arcs))
        yield "odd-%d" % k, lambda a=(n, arcs), k=k: run_directed(*a, style_of(k), container_of(k), k)
    for k in range(150 if big else 50):
        n = rng.choice([16, 20, 28, 40])
        plan = []
        if k % 3 < 2:
            n, t, plan = halin_graph(rng, n)
            if rng.random() < .2:
                i, j = rng.sample(range(len(plan)), 2)
                plan[i], plan[j] = plan[j], plan[i]
            e = simple(t + list(zip(plan, plan[1:] + plan[:1])))
        elif k % 9 == 2:
            e = [(0, i) for i in range(1, n)] + [(i, i + 1) for i in range(1, n - 1)] + [(1, n - 1)]
        else:
            n, e = grow_d3(rng, n, rng.random() < .8, rng.random() < .8)
        if rng.random() < .15:
            e = rewire(rng, n, e)
        yield "large-%d" % k, lambda a=(n, e), k=k, s=rng.getrandbits(30), p=plan: run(*a, style_of(k), container_of(k), s, p)
    for k, (name, n, e, s) in enumerate(shapes(rng, 11)):
        yield "shape-" + name, lambda n=n, e=e, k=k, s=s: run(n, e, style_of(k), container_of(k), s)

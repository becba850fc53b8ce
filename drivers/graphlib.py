"""Graph inputs shared by the graph recorders."""
from common import *
import random

CONTAINERS = (set, list, tuple, frozenset, dict)


class Inst:
    """A graph as the code sees it (G) and as the specification sees it (adj, 1-based)."""

    def __init__(self, n, arcs, style="int", container=set, seed=None, sym=False):
        rng = random.Random(seed)
        self.n = n
        arcs = [(a, b) for a, b in arcs]
        if sym:
            arcs = arcs + [(b, a) for a, b in arcs]
        arcs = list(dict.fromkeys(arcs))
        self.items = names(n, style, rng if seed is not None else None)
        self.code = Coder(self.items)
        order = list(range(n))
        if seed is not None:
            rng.shuffle(order)
        self.order = order
        self.G = digraph(self.items, arcs, container, order, rng if seed is not None else None)
        self.adj = jdigraph(n, arcs)
        self.arcs = arcs

    def head(self, **kw):
        kw["adj"] = self.adj
        return kw

    def back(self, H, limit=100000):
        """A graph returned by the code, as rows [vertex, neighbours]."""
        rows = []
        for v in H:
            rows.append([self.code(v), sorted(self.code(w) for w in H[v])])
            if len(rows) > limit:
                raise ValueError("too many vertices")
        return rows


def style_of(k):
    return STYLES[k % len(STYLES)]


def container_of(k):
    return CONTAINERS[(k // len(STYLES)) % len(CONTAINERS)]


def tree(rng, n, deep=False):
    return [(rng.randint(max(0, i - 2), i - 1) if deep else rng.randrange(i), i) for i in range(1, n)]


def relabel(rng, n, edges):
    p = list(range(n))
    rng.shuffle(p)
    return [(p[a], p[b]) for a, b in edges]


def simple(edges):
    return list(dict.fromkeys((min(a, b), max(a, b)) for a, b in edges if a != b))


def blocks(rng, n):
    """Biconnected pieces glued at vertices (and possibly left apart)."""
    edges, have = [], 1
    while have < n:
        m = min(rng.randint(1, 5), n - have)
        at = rng.randrange(have)
        if rng.random() < .1:
            at = None
        new = list(range(have, have + m))
        ring = ([at] if at is not None else []) + new
        for a, b in zip(ring, ring[1:]):
            edges.append((a, b))
        if len(ring) > 2:
            edges.append((ring[-1], ring[0]))
            for _ in range(rng.randint(0, 2)):
                a, b = rng.sample(ring, 2)
                edges.append((a, b))
        have += m
    return simple(edges)


def ktree(rng, n, k, drop=0):
    """Random k-tree (chordal)."""
    edges = list(itertools.combinations(range(min(k + 1, n)), 2))
    cliques = [list(range(min(k, n)))]
    for i in range(min(k + 1, n)):
        cliques.append([j for j in range(min(k + 1, n)) if j != i])
    for v in range(k + 1, n):
        c = rng.choice(cliques)
        edges += [(u, v) for u in c]
        for i in range(len(c)):
            cliques.append(c[:i] + c[i + 1:] + [v])
    edges = simple(edges)
    for _ in range(drop):
        if edges:
            edges.pop(rng.randrange(len(edges)))
    return edges


def undirected(rng, n):
    """Random undirected simple graph of a random kind."""
    c = rng.randrange(12)
    if c == 0:
        e = random_edges(rng, n, rng.choice([.1, .2, .3, .5, .8]))
    elif c == 1:
        e = tree(rng, n, rng.random() < .5)
    elif c == 2:
        e = [(i, (i + 1) % n) for i in range(n)] if n > 2 else []
        e += [tuple(rng.sample(range(n), 2)) for _ in range(rng.randint(0, 3))] if n > 1 else []
    elif c in (3, 4):
        e = blocks(rng, n)
    elif c == 5:
        k = rng.randint(0, n)
        e = [(a, b) for a in range(k) for b in range(k, n) if rng.random() < rng.choice([.3, .6, 1])]
    elif c == 6:
        e = ktree(rng, n, rng.randint(1, 3), rng.choice([0, 0, 1, 2]))
    elif c == 7:
        w = rng.randint(1, 4)
        e = [(i, i + 1) for i in range(n - 1) if (i + 1) % w] + [(i, i + w) for i in range(n - w)]
    elif c == 8:
        k = rng.randint(0, n)
        e = [(a, b) for a, b in undirected(rng, k)] if k else []
        if n - k:
            e += [(a + k, b + k) for a, b in undirected(rng, n - k)] if k else random_edges(rng, n, .2)
    elif c == 9:
        e = [(0, i) for i in range(1, n)] + [(i, i % (n - 1) + 1) for i in range(1, n)] if n > 3 else []
    elif c == 10:       # random regular-ish of degree at most three
        e, deg = [], [0] * n
        pairs = list(itertools.combinations(range(n), 2))
        rng.shuffle(pairs)
        for a, b in pairs:
            if deg[a] < 3 and deg[b] < 3:
                e.append((a, b))
                deg[a] += 1
                deg[b] += 1
    else:
        e = tree(rng, n) + [tuple(rng.sample(range(n), 2)) for _ in range(rng.randint(0, 4))] if n > 1 else []
    return relabel(rng, n, simple(e))


def directed(rng, n):
    c = rng.randrange(7)
    if c == 0:
        p = rng.choice([.05, .1, .2, .4])
        e = [(a, b) for a in range(n) for b in range(n) if rng.random() < p]
    elif c == 1:
        p = rng.choice([.1, .3, .6])
        e = [(a, b) for a in range(n) for b in range(a + 1, n) if rng.random() < p]
    elif c == 2:
        e = [(i, (i + 1) % n) for i in range(n)] + [(rng.randrange(n), rng.randrange(n)) for _ in range(rng.randint(0, 4))]
    elif c == 3:        # several strong pieces in a line
        e, i = [], 0
        while i < n:
            m = min(rng.randint(1, 4), n - i)
            e += [(i + j, i + (j + 1) % m) for j in range(m) if m > 1]
            if i:
                for _ in range(rng.randint(0, 2)):
                    e.append((rng.randrange(i), i + rng.randrange(m)))
            i += m
    elif c == 4:
        e = [(b, a) if rng.random() < .5 else (a, b) for a, b in undirected(rng, n)]
    elif c == 5:
        e = undirected(rng, n)
        e = e + [(b, a) for a, b in e]
    else:
        e = [(a, b) for a, b in tree(rng, n)] + [(rng.randrange(n), rng.randrange(n)) for _ in range(rng.randint(0, 3))]
    return relabel(rng, n, list(dict.fromkeys(e)))


def arcs_of(lists):
    """Arcs from 1-based adjacency lists printed by TLC."""
    return [(v, w - 1) for v, row in enumerate(lists) for w in row]


def atlas(lo=0, hi=7):
    """Every graph with at most 7 vertices up to isomorphism."""
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for line in open(os.path.join(root, "data", "atlas7.txt")):
        f = line.split()
        n = int(f[0])
        if lo <= n <= hi:
            yield n, [tuple(map(int, x.split("-"))) for x in f[1:]]


def blossom(n, adj):
    """Plain O(n^3) maximum matching; used only to propose certificates."""
    mate = [-1] * n

    def lca(a, b, base, p):
        used = set()
        while True:
            a = base[a]
            used.add(a)
            if mate[a] == -1:
                break
            a = p[mate[a]]
        while True:
            b = base[b]
            if b in used:
                return b
            b = p[mate[b]]

    def find(root):
        used, p, base, q = [False] * n, [-1] * n, list(range(n)), [root]
        used[root] = True
        while q:
            v = q.pop(0)
            for to in adj[v]:
                if base[v] == base[to] or mate[v] == to:
                    continue
                if to == root or (mate[to] != -1 and p[mate[to]] != -1):
                    c = lca(v, to, base, p)
                    inb = [False] * n
                    for x, child in ((v, to), (to, v)):
                        while base[x] != c:
                            inb[base[x]] = inb[base[mate[x]]] = True
                            p[x] = child
                            child = mate[x]
                            x = p[mate[x]]
                    for i in range(n):
                        if inb[base[i]]:
                            base[i] = c
                            if not used[i]:
                                used[i] = True
                                q.append(i)
                elif p[to] == -1:
                    p[to] = v
                    if mate[to] == -1:
                        return to, p
                    used[mate[to]] = True
                    q.append(mate[to])
        return -1, p
    for v in range(n):
        if mate[v] == -1:
            u, p = find(v)
            while u != -1:
                pv = p[u]
                w = mate[pv]
                mate[u], mate[pv] = pv, u
                u = w
    return mate


def barrier(n, edges):
    """Gallai-Edmonds barrier: neighbours of the vertices some maximum matching misses."""
    adj = [[] for _ in range(n)]
    for a, b in edges:
        adj[a].append(b)
        adj[b].append(a)
    size = sum(x != -1 for x in blossom(n, adj))
    missed = set()
    for v in range(n):
        sub = [[w for w in adj[u] if w != v] if u != v else [] for u in range(n)]
        if sum(x != -1 for x in blossom(n, sub)) == size:
            missed.add(v)
    return sorted({w for v in missed for w in adj[v]} - missed)


def long(x):
    """A whole number of any size as signed digits to base 10000, least significant first."""
    out, y = [], abs(x)
    while y:
        out.append(y % 10000 if x > 0 else -(y % 10000))
        y //= 10000
    return out or [0]


def larges(rng, count, sizes=(40, 64, 90, 130), kind=undirected):
    """Sparse and dense graphs beyond the middle sizes: (number, n, edges, seed)."""
    for k in range(count):
        r = random.Random(rng.getrandbits(30))
        n = r.choice(sizes)
        while True:
            e = kind(r, n)
            if len(e) <= 6 * n:
                break
        yield k, n, e, r.getrandbits(30)


def shapes(rng, most=20):
    """Named graphs, whole and with one edge more or less: (name, n, edges, seed)."""
    out = []

    def parts(*sizes):
        at = [i for i, s in enumerate(sizes) for _ in range(s)]
        return len(at), [(a, b) for a, b in itertools.combinations(range(len(at)), 2) if at[a] != at[b]]

    def grid(w, h):
        return w * h, ([(i, i + 1) for i in range(w * h) if (i + 1) % w] + [(i, i + w) for i in range(w * h - w)])
    for n in list(range(1, 11)) + [13, 16]:
        out.append(("complete-%d" % n, n, list(itertools.combinations(range(n), 2))))
    for p in ((1, 4), (2, 2), (2, 3), (3, 3), (2, 5), (3, 4), (4, 4), (3, 6), (5, 5), (6, 6), (4, 8), (7, 8), (8, 8), (10, 10),
              (1, 1, 3), (2, 2, 2), (3, 3, 3), (1, 4, 4), (2, 2, 2, 2), (4, 4, 4), (2, 2, 2, 2, 2), (3, 3, 3, 3)):
        out.append(("parts-" + "-".join(map(str, p)),) + parts(*p))
    for n in list(range(3, 13)) + [16, 17, 19]:
        ring = [(i, (i + 1) % n) for i in range(n)]
        out.append(("cycle-%d" % n, n, ring))
        out.append(("path-%d" % n, n, ring[:-1]))
        out.append(("star-%d" % n, n, [(0, i) for i in range(1, n)]))
        out.append(("wheel-%d" % n, n + 1, ring + [(i, n) for i in range(n)]))
        if n < 10:
            out.append(("cocycle-%d" % n, n, [e for e in itertools.combinations(range(n), 2) if (e[1] - e[0]) % n not in (1, n - 1)]))
            out.append(("prism-%d" % n, 2 * n, ring + [(a + n, b + n) for a, b in ring] + [(i, i + n) for i in range(n)]))
            out.append(("moebius-%d" % n, 2 * n, [(i, (i + 1) % (2 * n)) for i in range(2 * n)] + [(i, i + n) for i in range(n)]))
            out.append(("twins-%d" % n, 2 * n, ring + [(a + n, b + n) for a, b in ring]))
            out.append(("eight-%d" % n, 2 * n - 1, ring + [(a + n - 1 if a else 0, b + n - 1 if b else 0) for a, b in ring]))
            out.append(("matching-%d" % n, 2 * n, [(i, i + n) for i in range(n)]))
            out.append(("sun-%d" % n, 2 * n, list(itertools.combinations(range(n), 2)) + [(i, n + i) for i in range(n)] + [((i + 1) % n, n + i) for i in range(n)]))
            out.append(("corona-%d" % n, 2 * n, ring + [(i, n + i) for i in range(n)]))
            out.append(("fan-%d" % n, n + 1, ring[:-1] + [(i, n) for i in range(n)]))
            out.append(("friends-%d" % n, 2 * n + 1, [(0, i) for i in range(1, 2 * n + 1)] + [(2 * i + 1, 2 * i + 2) for i in range(n)]))
    for w, h in ((2, 2), (2, 3), (3, 3), (2, 5), (3, 4), (4, 4), (3, 6)):
        out.append(("grid-%d-%d" % (w, h),) + grid(w, h))
    for d in (2, 3, 4):
        out.append(("cube-%d" % d, 2 ** d, [(a, a ^ 1 << i) for a in range(2 ** d) for i in range(d) if not a >> i & 1]))
    out.append(("petersen", 10, [(i, (i + 1) % 5) for i in range(5)] + [(i, i + 5) for i in range(5)] + [(5 + i, 5 + (i + 2) % 5) for i in range(5)]))
    for n in (0, 1, 2, 7):
        out.append(("none-%d" % n, n, []))
    for name, n, e in out:
        if n <= most:
            e = simple(e)
            yield name, n, e, rng.getrandbits(30)
            if e:
                f = list(e)
                f.pop(rng.randrange(len(f)))
                yield name + "-less", n, f, rng.getrandbits(30)
            free = sorted(set(itertools.combinations(range(n), 2)) - set(e))
            if free:
                yield name + "-more", n, e + [rng.choice(free)], rng.getrandbits(30)


def dirshapes(rng, most=20):
    """The same with directions: forward, mixed, both ways, around."""
    for k, (name, n, e, s) in enumerate(shapes(rng, most)):
        r = random.Random(s)
        p = list(range(n))
        r.shuffle(p)
        yield name + "-fwd", n, [(p[a], p[b]) for a, b in e], s
        if k % 2:
            yield name + "-mix", n, [(b, a) if r.random() < .5 else (a, b) for a, b in e], s + 1
        else:
            both = {x for x in e if r.random() < .3}
            yield name + "-both", n, e + [(b, a) for a, b in e if (a, b) in both], s + 1

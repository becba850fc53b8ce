"""Shared pieces of the recorders: vertex naming, graph enumeration, capture."""
import itertools
import json
import os


class Opaque:
    """Hashable item without order; equal to those with the same tag."""
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, other):
        return isinstance(other, Opaque) and self.tag == other.tag

    def __hash__(self):
        return hash(self.tag) % 61

    def __repr__(self):
        return "<%s>" % (self.tag,)


def twin(x):
    """Something equal to x that is not x, where there is such a thing."""
    if type(x) is int:
        return int(str(x))
    if type(x) is str:
        return "".join(list(x))
    if type(x) is float:
        return float(repr(x))
    if type(x) is tuple:
        return tuple([twin(y) for y in x])
    if type(x) is frozenset:
        return frozenset([twin(y) for y in x])
    if type(x) is Opaque:
        return Opaque(x.tag)
    return x


class Twins(list):
    """Items that are equal, and not the same, each time one is taken by its index."""

    def __getitem__(self, i):
        x = list.__getitem__(self, i)
        return x if isinstance(i, slice) else twin(x)


STYLES = ("int", "str", "tuple", "mixed", "opaque", "neg")


def names(n, style, rng=None):
    """n distinct hashable items; 'mixed' and 'opaque' cannot be compared."""
    if style == "int":
        r = list(range(n))
    elif style == "one":
        r = list(range(1, n + 1))
    elif style == "neg":
        r = [1000 * (i - n // 2) for i in range(n)]
    elif style == "str":
        r = ["v%02d" % i for i in range(n)]
    elif style == "tuple":
        r = [(i % 3, i // 3) for i in range(n)]
    elif style == "mixed":
        r = [(i, "s%d" % i, (i,), frozenset([i]), i + 0.5)[i % 5] for i in range(n)]
        if n > 6:
            r[6] = None
    elif style == "opaque":
        r = [Opaque(i) for i in range(n)]
    else:
        raise ValueError(style)
    if rng is not None and style in ("int", "str", "tuple", "neg"):
        rng.shuffle(r)
    return Twins(r)


class Coder:
    """Maps items to 1..n; anything that is not one of them becomes 0."""

    def __init__(self, items):
        self.items = list(items)
        self.num = {x: i + 1 for i, x in enumerate(self.items)}

    def __call__(self, x):
        try:
            i = self.num.get(x, 0)
        except TypeError:
            return 0
        # 1, 1.0 and True are equal keys; accept them as the same item
        return i

    def seq(self, xs, limit=100000):
        r = []
        for x in xs:
            r.append(self(x))
            if len(r) > limit:
                raise ValueError("more than %d items" % limit)
        return r


def raised(e):
    return {"op": "raised", "exc": type(e).__name__}


def attempt(f, *args, **kw):
    """(value, "") or (None, exception type name)."""
    try:
        return f(*args, **kw), ""
    except Exception as e:
        return None, type(e).__name__


def take(it, limit):
    """At most limit+1 items of an iterator."""
    return list(itertools.islice(it, limit + 1))


def generated(name):
    """Behaviours printed by TLC for replay (see run.py)."""
    path = os.environ.get("GEN_" + name)
    if path and os.path.exists(path):
        for line in sorted(set(open(path))):
            yield json.loads(line)


def all_edge_sets(n):
    pairs = list(itertools.combinations(range(n), 2))
    for bits in range(1 << len(pairs)):
        yield [p for i, p in enumerate(pairs) if bits >> i & 1]


def adjacency(items, edges, container=set, order=None, rng=None):
    """Undirected graph as dict in the given vertex order."""
    idx = order if order is not None else range(len(items))
    adj = {i: [] for i in range(len(items))}
    for a, b in edges:
        adj[a].append(b)
        adj[b].append(a)
    G = {}
    for i in idx:
        nb = [items[j] for j in adj[i]]
        if rng is not None:
            rng.shuffle(nb)
        G[items[i]] = container(nb) if container is not dict else {w: True for w in nb}
    return G


def digraph(items, arcs, container=set, order=None, rng=None):
    idx = order if order is not None else range(len(items))
    adj = {i: [] for i in range(len(items))}
    for a, b in arcs:
        adj[a].append(b)
    G = {}
    for i in idx:
        nb = [items[j] for j in adj[i]]
        if rng is not None:
            rng.shuffle(nb)
        G[items[i]] = container(nb) if container is not dict else {w: True for w in nb}
    return G


def snapshot(G):
    """Deep enough copy of a graph to detect modification."""
    return [(v, type(G[v]), list(G[v].items()) if isinstance(G[v], dict)
             else (set(G[v]) if isinstance(G[v], (set, frozenset)) else list(G[v]))) for v in G]


def random_edges(rng, n, p):
    return [e for e in itertools.combinations(range(n), 2) if rng.random() < p]


def jgraph(n, edges):
    """1-based adjacency lists for the specification."""
    adj = [[] for _ in range(n)]
    for a, b in edges:
        adj[a].append(b + 1)
        adj[b].append(a + 1)
    return adj


def jdigraph(n, arcs):
    adj = [[] for _ in range(n)]
    for a, b in arcs:
        adj[a].append(b + 1)
    return adj

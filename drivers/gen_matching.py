from graphlib import *


def run(n, edges, start, style, container, seed, s=None):
    from pads.cardinality_matching import matching, greedy_matching
    I = Inst(n, edges, style, container, seed, True)
    init = {}
    for a, b in start:
        init[I.items[a]] = I.items[b]
        init[I.items[b]] = I.items[a]
    G0, i0 = snapshot(I.G), dict(init)
    ops = []
    keep = sorted(I.code(v) for v in init)
    try:
        if start:
            M, Q = matching(I.G, init), greedy_matching(I.G, init)
        else:
            M, Q = matching(I.G), greedy_matching(I.G)
        ops.append({"op": "general", "m": [[I.code(v), I.code(M[v])] for v in M], "keep": keep,
                    "s": [v + 1 for v in (barrier(n, edges) if s is None else s)]})
        ops.append({"op": "greedy", "m": [[I.code(v), I.code(Q[v])] for v in Q], "keep": keep})
        ops.append({"op": "same", "r": snapshot(I.G) == G0 and init == i0})
    except Exception as e:
        ops.append(raised(e))
    return I.head(ops=ops)


def some_matching(rng, edges, p=.6):
    used, m = set(), []
    e = list(edges)
    rng.shuffle(e)
    for a, b in e:
        if a not in used and b not in used and rng.random() < p:
            used |= {a, b}
            m.append((a, b))
    return m


def flowers(rng, n):
    """Odd cycles joined by short paths: nested blossoms."""
    e, have, ends = [], 0, []
    while have < n - 2:
        m = rng.choice([3, 3, 5, 7])
        m = min(m, n - have)
        ring = list(range(have, have + m))
        e += list(zip(ring, ring[1:]))
        if m > 2:
            e.append((ring[0], ring[-1]))
        if ends:
            e.append((rng.choice(ends), rng.choice(ring)))
            if rng.random() < .3:
                e.append((rng.choice(ends), rng.choice(ring)))
        ends += ring
        have += m
    while have < n:
        if have:
            e.append((rng.randrange(have), have))
        have += 1
    return relabel(rng, n, simple(e))


def nested(n, d, tail, rng=None):
    """A blossom in a blossom in a blossom, n deep, with the matching that
    makes the search find them one by one: edges and starting matching."""
    num, e, m = {}, [], []

    def put(a, b, matched=False):
        x, y = num.setdefault(a, len(num)), num.setdefault(b, len(num))
        e.append((x, y))
        if matched:
            m.append((x, y))
    for k in range(n - 1, 0, -1):
        put(("s", k + 1), ("t", k))
        put(("t", k), ("s", k), True)
    put(("s", 1), ("s", 2))

    def path(a, b, length, name):
        for j in range(length):
            put(a, (name, j, 0))
            put((name, j, 0), (name, j, 1), True)
            a = (name, j, 1)
        put(a, b)
    for k in range(1, n - 1):
        path(("t", k), ("s", k + 2), d if rng is None else rng.randint(1, d), ("p", k))
    path(("t", n - 1), "z", tail, "x")
    if rng is not None:
        e = [x for x in e if x in m or rng.random() < .97]
        m = [x for x in m if rng.random() < .95]
        order = list(range(len(num)))
        if rng.random() < .5:
            rng.shuffle(order)
        f = lambda x: (order[x[0]], order[x[1]])
        e, m = [f(x) for x in e], [f(x) for x in m]
    return len(num), e, m


def petals(rng):
    """Long odd cycles hanging on matched stems, each left again by a matched
    tail from anywhere on it: the way out leads round the cycle one way only."""
    e, m, n = [], [], 1
    at = 0                                  # unmatched root
    for _ in range(rng.choice([1, 1, 1, 2])):
        for _ in range(rng.choice([0, 0, 1, 2])):
            e += [(at, n), (n, n + 1)]
            m.append((n, n + 1))
            at, n = n + 1, n + 2
        k = rng.randint(1, 9)
        ring = [at] + list(range(n, n + 2 * k))
        n += 2 * k
        e += list(zip(ring, ring[1:])) + [(ring[-1], at)]
        m += list(zip(ring[1::2], ring[2::2]))
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            e.append(tuple(rng.sample(ring, 2)))
        at = rng.choice(ring)
        for _ in range(rng.choice([0, 1, 2])):
            e += [(at, n), (n, n + 1)]
            m.append((n, n + 1))
            at, n = n + 1, n + 2
    if rng.random() < .9:
        e.append((at, n))                   # unmatched end
        n += 1
    order = list(range(n))
    rng.shuffle(order)
    f = lambda x: (order[x[0]], order[x[1]])
    return n, simple([f(x) for x in e]), [f(x) for x in m]


def longway(rng, n):
    """A long path or cycle with chords, matched along it but for its ends."""
    C = list(range(n))
    rng.shuffle(C)
    e = [(C[k], C[k + 1]) for k in range(n - 1) if rng.random() < .97]
    if rng.random() < .5:
        e.append((C[-1], C[0]))
    for _ in range(rng.randint(0, n // 4)):
        a = rng.randrange(n)
        b = rng.randrange(n) if rng.random() < .5 else (a + rng.choice([2, 4, 6, 8, 10, 12])) % n
        if a != b:
            e.append((C[a], C[b]))
    e = simple(e)
    have = {frozenset(x) for x in e}
    off = rng.choice([0, 1, 1])
    m = [(C[k], C[k + 1]) for k in range(off, n - 1, 2) if frozenset((C[k], C[k + 1])) in have and rng.random() < .95]
    return n, e, m


def cases(tier, rng):
    big = tier == "thorough"
    yield "empty", lambda: run(0, [], [], "int", set, 0)
    for k, h in enumerate(generated("mm")):
        n = len(h["g"])
        edges = [(a, b) for a, b in arcs_of(h["g"]) if a < b]
        start = [(x - 1, y - 1) for x, y in h["m"]]
        yield "gen-%d" % k, lambda a=(n, edges, start), k=k: run(*a, style_of(k), container_of(k), k)
    for k, (n, e) in enumerate(atlas(6, 7)):
        for r in range(4 if big else 2):
            start = some_matching(rng, e) if r else []
            yield "atlas-%d-%d" % (k, r), lambda a=(n, e, start), k=k, r=r: run(*a, style_of(k), container_of(k + r), k * 9 + r)
    for k in range(400 if big else 120):
        n, e, m = nested(rng.randint(3, 7), rng.randint(1, 3), rng.randint(0, 4), rng)
        if rng.random() < .3:
            m = []
        yield "nested-%d" % k, lambda a=(n, simple(e), m), k=k, s=rng.getrandbits(30): run(*a, style_of(k), container_of(k), s)
    for d in (1, 2):
        n, e, m = nested(1050, d, 0)
        yield "deep-%d" % d, lambda a=(n, simple(e), m): run(*a, "int", dict, None, [])
    for k in range(2500 if big else 600):
        n = rng.choice([8, 9, 10, 12, 14, 17, 22])
        c = rng.random()
        e = flowers(rng, n) if c < .5 else undirected(rng, n)
        start = some_matching(rng, e, rng.choice([.3, .7, 1])) if rng.random() < .5 else []
        yield "rnd-%d" % k, lambda a=(n, e, start), k=k, s=rng.getrandbits(30): run(*a, style_of(k), container_of(k), s)
    for k in range(300 if big else 90):
        n, e, m = longway(rng, rng.choice([13, 20, 27, 34, 45]))
        yield "long-%d" % k, lambda a=(n, e, m), k=k, s=rng.getrandbits(30): run(*a, style_of(k), container_of(k), s)
    for k in range(600 if big else 200):
        n, e, m = petals(rng)
        yield "petal-%d" % k, lambda a=(n, e, m), k=k, s=rng.getrandbits(30): run(*a, style_of(k), container_of(k), s)
    for k, (name, n, e, s) in enumerate(shapes(rng, 20)):
        yield "shape-" + name, lambda n=n, e=e, k=k, s=s: run(n, e, some_matching(random.Random(s), e) if k % 2 else [], style_of(k), container_of(k), s)

from graphlib import *


def ranked(values):
    """Ranks that compare as the values do, and a coder for them."""
    order = sorted(set(values))
    rank = {v: i + 1 for i, v in enumerate(order)}

    def code(x):
        try:
            return rank.get(x, 0)
        except TypeError:
            return 0
    return [rank[v] for v in values], code


def bounds(rng, n, i, j):
    """The slice i:j written in one of the ways Python allows."""
    a = rng.choice([i, i, i - n if i < n else i] + ([None] if i == 0 else []))
    b = rng.choice([j, j, j - n if j < n else j] + ([None, n + 3] if j == n else []))
    return a, b


def ranges(values, seed, kinds, queries=None, several=False):
    """values: list; kinds: which structures."""
    from pads import lca as M
    rng = random.Random(seed)
    s, code = ranked(values)
    n = len(values)
    ops = []
    data = list(values)
    classes = {"range": M.RangeMin, "pm1": M.RestrictedRangeMin, "all": M.PrecomputedRangeMin, "log": M.LogarithmicRangeMin}
    try:
        made = []
        for k in kinds:
            R = classes[k](rng.choice([list, tuple])(data) if k != "pm1" else list(data))
            made.append((k, R))
            if several:                      # structures built in between must not matter
                classes[rng.choice(["range", "log", "all"])]([rng.randrange(9) for _ in range(rng.choice([1, 3, 40]))])
        if queries is None:
            queries = [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
        for k, R in made:
            ops.append({"op": "len", "k": k, "r": len(R)})
            for odd in (0, slice(0, n, 2), slice(None, None, -1), (0, 1)):
                ops.append({"op": "odd", "k": k, "exc": attempt(lambda: R[odd])[1]})
            for i, j in queries:
                a, b = bounds(rng, n, i, j)
                ops.append({"op": "min", "k": k, "i": [] if a is None else [a], "j": [] if b is None else [b], "r": code(R[a:b])})
        ops.append({"op": "prefix", "r": [code(x) for x in M.PrefixMinima(list(data))]})
        ops.append({"op": "suffix", "r": [code(x) for x in M.PrefixMinima(list(data), reversed=True)]})
    except Exception as e:
        ops.append(raised(e))
    return {"s": s, "par": [], "ordered": False, "ops": ops}


def tree_case(par, seed, queries=None, ordered=True, kinds=("", "log", "all", "range"), offline=True, style=None):
    """par: 1-based parents with 0 for roots."""
    from pads import lca as M
    rng = random.Random(seed)
    n = len(par)
    items = names(n, style or style_of(seed), rng)
    c = Coder(items)
    order = list(range(n))
    rng.shuffle(order)
    P = {items[x]: items[par[x] - 1] for x in order if par[x]}
    before = list(P.items())
    ops = []
    fact = {"": [], "log": [M.LogarithmicRangeMin], "all": [M.PrecomputedRangeMin], "range": [M.RangeMin]}
    if queries is None:
        queries = [(x, y) for x in range(n) for y in range(n)]
    try:
        for k in kinds:
            try:
                L = M.LCA(P, *fact[k])
            except ValueError:
                ops.append({"op": "notree"})
                continue
            ops.append({"op": "built", "k": k})
            for q in queries:
                ops.append({"op": "lca", "k": k, "q": [x + 1 for x in q], "r": c(L(*[items[x] for x in q]))})
            for _ in range(min(n, 3)):
                q = [rng.randrange(n) for _ in range(rng.randint(1, 4))]
                ops.append({"op": "lca", "k": k, "q": [x + 1 for x in q], "r": c(L(*[items[x] for x in q]))})
        if offline:
            pairs = [(items[q[0]], items[q[1]]) for q in queries if rng.random() < .9]
            try:
                O = M.OfflineLCA(P, rng.choice([list, tuple, iter])(pairs))
            except ValueError:
                ops.append({"op": "notree"})
            else:
                for x, y in pairs:
                    ops.append({"op": "lca", "k": "off", "q": [c(x), c(y)], "r": c(O[x][y])})
                    ops.append({"op": "lca", "k": "off", "q": [c(x), c(y)], "r": c(O[y][x])})
        if before != list(P.items()):
            ops.append({"op": "broken", "what": "parents changed"})
    except Exception as e:
        ops.append(raised(e))
    return {"s": [], "par": par, "ordered": ordered, "ops": ops}


def values(rng, n):
    c = rng.randrange(8)
    if c == 0:
        return [rng.randint(0, 3) for _ in range(n)]
    if c == 1:
        return [rng.randint(-10**9, 10**9) for _ in range(n)]
    if c == 2:
        return sorted(rng.randint(0, n) for _ in range(n))
    if c == 3:
        return sorted((rng.randint(0, n) for _ in range(n)), reverse=True)
    if c == 4:
        return [rng.choice(["", "a", "b", "ab", "ba"]) for _ in range(n)]
    if c == 5:
        return [(rng.randint(0, 2), rng.choice("xy")) for _ in range(n)]
    if c == 6:
        return [rng.choice([0.5, -0.5, 1, float("inf"), float("-inf"), 2**70]) for _ in range(n)]
    return [abs(i - n // 2) * rng.choice([1, -1]) for i in range(n)]


def pm1(rng, n):
    x = [rng.randint(-3, 3)]
    up = rng.random()
    while len(x) < n:
        x.append(x[-1] + (1 if rng.random() < up else -1))
    return x


def cases(tier, rng):
    big = tier == "thorough"
    for k, g in enumerate(generated("seq")):
        yield "s-%d" % k, lambda g=g, k=k: ranges(g["s"], k, ("range", "all", "log"))
    for n in range(1, 11 if big else 9):
        for b in range(1 << (n - 1)):
            x = [0]
            for i in range(n - 1):
                x.append(x[-1] + (1 if b >> i & 1 else -1))
            yield "pm-%d-%d" % (n, b), lambda x=x, b=b: ranges(x, b, ("pm1",))
    for i in range(600 if big else 250):
        n = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 130])
        qs = []
        for _ in range(30):
            a = rng.randrange(n)
            qs.append((a, rng.randint(a + 1, n)))
        qs += [(0, n), (n - 1, n), (0, 1)]
        yield "v-%d" % i, lambda v=values(rng, n), i=i, q=qs: ranges(v, i, ("range", "log", "all") if len(v) < 70 else ("range", "log"), q, i % 2)
        yield "pm-r-%d" % i, lambda v=pm1(rng, n), i=i, q=qs: ranges(v, i, ("pm1", "range", "log"), q, i % 2)
    for j, n in enumerate((300, 1100, 1500) if not big else (300, 1100, 1500, 4000)):
        for kind in range(3):
            v = list(range(n)) if kind == 0 else list(range(n, 0, -1)) if kind == 1 else [rng.randrange(n) for _ in range(n)]
            qs = []
            for _ in range(6):
                a = rng.randrange(n)
                qs.append((a, min(n, a + rng.choice([1, 2, 50, n]))))
            yield "long-%d-%d" % (n, kind), lambda v=v, q=qs, j=j: ranges(v, j, ("range", "log"), q)
    for k, g in enumerate(generated("tree")):
        if len(g["par"]) > 1 and (big or len(g["par"]) < 6 or k % 2 == 0):
            yield "t-%d" % k, lambda g=g, k=k: tree_case(g["par"], k)
    for i in range(600 if big else 250):
        n = rng.choice([2, 3, 5, 8, 9, 12, 16, 17, 30, 40])
        t = tree(rng, n, rng.random() < .5) if rng.random() < .8 else [(0, x) for x in range(1, n)]
        par = [0] * n
        for a, b in t:
            par[b] = a + 1
        qs = [(rng.randrange(n), rng.randrange(n)) for _ in range(25)] + [(x, x) for x in range(3) if x < n]
        yield "tr-%d" % i, lambda par=par, i=i, q=qs: tree_case(par, i, q)
    for j, n in enumerate((600, 1100, 1300)):
        par = [0] + [x for x in range(1, n)] if j % 2 == 0 else [0] + [max(1, x - rng.randint(0, 1)) for x in range(1, n)]
        qs = [(n - 1, n - 2), (0, n - 1), (n // 2, n - 1), (rng.randrange(n), rng.randrange(n))]
        yield "deep-%d" % n, lambda par=par, j=j, q=qs: tree_case(par, j, q, kinds=("", "log"), style=["int", "opaque", "str"][j])
    # parent maps that are no trees (the offline structure does not promise to notice cycles)
    for n in range(1, 5):
        for par in itertools.product(range(n + 1), repeat=n):
            roots = par.count(0)
            if rng.random() < (.3 if n == 4 and not big else 1) and all(par[x] != 0 or x + 1 in par for x in range(n)):
                yield "any-%s" % "".join(map(str, par)), lambda par=list(par): tree_case(par, sum(par), ordered=False, offline=par.count(0) != 1, kinds=("",) if par.count(0) != 1 else ("", "log"))
    for i in range(150 if big else 60):
        n = rng.randint(4, 12)
        par = [0] + [rng.randint(1, x) for x in range(1, n)]
        x, y = rng.sample(range(n), 2)
        if rng.random() < .3:
            par[x] = 0
        else:
            par[x] = y + 1
        if any(par[x] == 0 and x + 1 not in par for x in range(n)):
            continue
        yield "no-%d" % i, lambda par=par, i=i: tree_case(par, i, queries=[(0, n - 1)], ordered=False, offline=False)

from common import *
import random


def history(reqs, items):
    """reqs: ("f", i) | ("u", [i...]) | ("i",); i is 1-based."""
    from pads.union_find import UnionFind
    code = Coder(items)
    X = UnionFind()
    ops = []
    for r in reqs:
        try:
            if r[0] == "f":
                ops.append({"op": "find", "x": r[1], "r": code(X[items[r[1] - 1]])})
            elif r[0] == "u":
                X.union(*[items[i - 1] for i in r[1]])
                ops.append({"op": "union", "xs": list(r[1])})
            else:
                ops.append({"op": "iter", "r": code.seq(X)})
        except Exception as e:
            ops.append(raised(e))
            break
    return ops


def binomial(n, items, rng):
    """Sets of equal size united by their names, so that the trees of parents
    grow as deep as they can; only then are items below looked up."""
    from pads.union_find import UnionFind
    code = Coder(items)
    X = UnionFind()
    ops = []
    try:
        for i in range(n):
            ops.append({"op": "find", "x": i + 1, "r": code(X[items[i]])})
        tops = [(i + 1, [i + 1]) for i in range(n)]
        while len(tops) > 1:
            if rng.random() < .5:
                rng.shuffle(tops)
            new = [tops.pop()] if len(tops) % 2 else []
            for (a, A), (b, B) in zip(tops[::2], tops[1::2]):
                X.union(items[a - 1], items[b - 1])
                ops.append({"op": "union", "xs": [a, b]})
                r = code(X[items[a - 1]])
                ops.append({"op": "find", "x": a, "r": r})
                new.append((r, A + B))
            tops = new
        order = list(range(1, n + 1))
        if rng.random() < .7:
            rng.shuffle(order)
        for i in order:
            ops.append({"op": "find", "x": i, "r": code(X[items[i - 1]])})
    except Exception as e:
        ops.append(raised(e))
    return ops


def cases(tier, rng):
    big = tier == "thorough"
    # every history TLC generated, each followed by a full observation
    tail = [("f", i) for i in range(1, 5)]
    for k, h in enumerate(generated("uf")):
        reqs = [("f", r["f"]) if "f" in r else ("u", r["u"]) for r in h]
        style = STYLES[k % len(STYLES)]
        yield "gen-%d-%s" % (k, style), (lambda reqs=reqs, style=style:
                                         history([("i",)] + reqs + [("i",)] + tail, names(4, style)))
    # random longer histories, unions of any arity, all names re-observed often
    for k in range(900 if big else 300):
        n = rng.choice([1, 2, 3, 5, 8, 13, 25])
        style = rng.choice(STYLES)
        reqs = []
        for _ in range(rng.randint(1, 40)):
            c = rng.random()
            if c < .45:
                reqs.append(("f", rng.randint(1, n)))
            elif c < .92:
                reqs.append(("u", [rng.randint(1, n) for _ in range(rng.choice([1, 2, 2, 2, 2, 3, 4, 6]))]))
            else:
                reqs.append(("i",))
            if rng.random() < .1:
                reqs += [("f", i) for i in range(1, n + 1)]
        reqs += [("i",)] + [("f", i) for i in range(1, n + 1)] * 2
        yield "rnd-%d-%s" % (k, style), lambda reqs=reqs, n=n, style=style: history(reqs, names(n, style))
    # long chains and balanced merges: deep trees before compression
    for k in range(20 if big else 8):
        n = 60
        style = rng.choice(STYLES)
        order = list(range(1, n + 1))
        rng.shuffle(order)
        reqs = []
        if k % 2:
            groups = [[i] for i in order]
            while len(groups) > 1:
                a = groups.pop(0)
                b = groups.pop(0)
                reqs.append(("u", [rng.choice(a), rng.choice(b)]))
                groups.append(a + b)
                reqs.append(("f", rng.choice(a)))
        else:
            for a, b in zip(order, order[1:]):
                reqs.append(("u", [a, b] if rng.random() < .5 else [b, a]))
                if rng.random() < .3:
                    reqs.append(("f", rng.choice(order)))
        reqs += [("f", i) for i in order]
        yield "deep-%d-%s" % (k, style), lambda reqs=reqs, n=n, style=style: history(reqs, names(n, style))
    for k in range(60 if big else 25):
        n = rng.choice([8, 16, 32, 64, 64, 128, rng.randint(20, 130)])
        style = rng.choice(STYLES)
        yield "binomial-%d-%s" % (k, style), lambda n=n, style=style, s=rng.getrandbits(30): binomial(n, names(n, style), random.Random(s))

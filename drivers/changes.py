from graphlib import *
from lyndon import take_copies


def visits(kind, n, arg=None):
    from pads import permutations as M
    f, g = {"perm": (M.SteinhausJohnsonTrotter, M.PlainChanges), "double": (M.DoubleSteinhausJohnsonTrotter, M.DoublePlainChanges),
            "stirling": (M.StirlingPermutations, M.StirlingChanges), "invol": (M.Involutions, M.InvolutionChanges)}[kind]
    ops = []
    try:
        if arg is None:
            r = take_copies(f(n), 60000)
        else:
            items, x = arg
            c = Coder(items)
            r = [[c(y) - 1 for y in p] for p in take_copies(f(x), 60000)]
        ops.append({"op": "visits", "r": r, "c": take(g(n), 60000)})
    except Exception as e:
        ops.append(raised(e))
    return {"n": n, "kind": kind, "ops": ops}


def prefix(kind, n, k):
    """The beginning of a list too long to be seen as a whole."""
    from itertools import islice
    from pads import permutations as M
    f, g = {"perm": (M.SteinhausJohnsonTrotter, M.PlainChanges), "double": (M.DoubleSteinhausJohnsonTrotter, M.DoublePlainChanges),
            "stirling": (M.StirlingPermutations, M.StirlingChanges), "invol": (M.Involutions, M.InvolutionChanges)}[kind]
    ops = []
    try:
        ops.append({"op": "begins", "r": take_copies(islice(f(n), k), k), "c": list(islice(g(n), k - 1)), "k": k})
    except Exception as e:
        ops.append(raised(e))
    return {"n": n, "kind": kind, "ops": ops}


def cases(tier, rng):
    big = tier == "thorough"
    for kind, low, high in (("perm", 8, 40), ("invol", 10, 40), ("double", 6, 20), ("stirling", 6, 20)):
        for n in range(low, high + 1, 1 if big else 3):
            k = rng.randint(300, 900) if n > low + 3 else 3000
            yield "begin-%s-%d" % (kind, n), lambda kind=kind, n=n, k=k: prefix(kind, n, k)
    for n in range(0, 9):
        yield "perm-%d" % n, lambda n=n: visits("perm", n)
    for n in range(0, 12):
        yield "invol-%d" % n, lambda n=n: visits("invol", n)
    for n in range(0, 7):
        yield "double-%d" % n, lambda n=n: visits("double", n)
        yield "stirling-%d" % n, lambda n=n: visits("stirling", n)
    for n in range(0, 7):
        for k, style in enumerate(STYLES):
            items = names(n, style, rng)
            x = [list(items), tuple(items), iter(list(items)), dict.fromkeys(items), (y for y in list(items)), list(items)][k]
            yield "items-%d-%s" % (n, style), lambda n=n, a=(items, x): visits("perm", n, a)
        s = "".join(rng.sample("abcdefgh", n))
        yield "text-%d" % n, lambda n=n, s=s: visits("perm", n, (list(s), s))

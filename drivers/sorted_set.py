from common import *


def history(n, init, reqs, mode, keys=None):
    """mode: 'cmp' (mutable sort keys through a comparison function) or 'plain' (natural order)."""
    from pads.sorted_set import SortedSet
    if mode == "cmp":
        items = names(n, "opaque")
        key = dict(zip(items, keys or [0] * n))
        S = SortedSet([items[i - 1] for i in init], comparison=lambda a, b: key[a] - key[b])
    else:
        items = {"plain": list(range(-2, n - 2)), "str": ["w%02d" % i for i in range(n)],
                 "tup": [(i // 2, i % 2) for i in range(n)]}[mode]
        S = SortedSet([items[i - 1] for i in init]) if init else SortedSet()
        keys = list(range(n))
    code = Coder(items)
    ops = []
    for r in reqs:
        try:
            if r[0] == "a":
                _, e = attempt(S.add, items[r[1] - 1])
                ops.append({"op": "add", "x": r[1], "exc": e})
            elif r[0] == "r":
                _, e = attempt(S.remove, items[r[1] - 1])
                ops.append({"op": "remove", "x": r[1], "exc": e})
            elif r[0] == "k":
                if mode == "cmp":
                    key[items[r[1] - 1]] = r[2]
                    k = r[2]
                else:
                    k = r[1] - 1
                _, e = attempt(S.update, items[r[1] - 1])
                ops.append({"op": "rekey", "x": r[1], "k": k, "exc": e})
            elif r[0] == "l":
                ops.append({"op": "len", "r": len(S)})
            elif r[0] == "h":
                ops.append({"op": "has", "x": r[1], "r": bool(items[r[1] - 1] in S)})
            elif r[0] == "p":           # partial iteration, abandoned
                it = iter(S)
                for _ in range(r[1]):
                    next(it, None)
            else:
                ops.append({"op": "iter", "r": code.seq(S, 10 * n + 10)})
        except Exception as e:
            ops.append(raised(e))
            break
    return {"init": list(init), "keys": list(keys or [0] * n), "ops": ops}


def cases(tier, rng):
    big = tier == "thorough"
    for k, h in enumerate(generated("ss")):
        reqs = []
        for r in h:
            reqs.append(("a", r["a"]) if "a" in r else ("r", r["r"]) if "r" in r else
                        ("k", r["k"][0], r["k"][1]) if "k" in r else ("i",))
        reqs += [("i",), ("l",)]
        mode = "cmp" if any(r[0] == "k" for r in reqs) or k % 2 else "plain"
        init = [1, 2] if k % 3 == 0 and not any(r[0] == "k" for r in reqs) else []
        yield "gen-%d-%s" % (k, mode), lambda reqs=reqs, mode=mode, init=init: history(2, init, reqs, mode)
    for k in range(2500 if big else 800):
        n = rng.choice([1, 2, 3, 5, 8, 15])
        mode = rng.choice(["cmp", "cmp", "plain", "str", "tup"])
        init = [i for i in range(1, n + 1) if rng.random() < rng.choice([0, .3, .8])]
        keys = [rng.randint(-3, 3) for _ in range(n)]
        cur = set(init)
        reqs = []
        for _ in range(rng.randint(2, 40)):
            c = rng.random()
            x = rng.randint(1, n)
            if c < .3:
                reqs.append(("a", x))
                cur.add(x)
            elif c < .5:
                reqs.append(("r", x))
                cur.discard(x)
            elif c < .65:
                if cur:
                    reqs.append(("k", rng.choice(sorted(cur)), rng.randint(-3, 3)))
            elif c < .7:
                reqs.append(("l",))
            elif c < .75:
                reqs.append(("h", x))
            elif c < .8:
                reqs.append(("p", rng.randint(0, 3)))
            else:
                reqs.append(("i",))
        reqs += [("i",), ("l",), ("i",)]
        yield "rnd-%d-%s" % (k, mode), (lambda n=n, init=init, reqs=reqs, mode=mode, keys=keys:
                                        history(n, init, reqs, mode, keys))
    for k in range(12 if big else 4):
        n = 120
        reqs = []
        for _ in range(300):
            c = rng.random()
            reqs.append(("a", rng.randint(1, n)) if c < .6 else ("r", rng.randint(1, n)) if c < .93 else ("i",))
        yield "bulk-%d" % k, lambda reqs=reqs, n=n: history(n, [], reqs + [("i",)], "plain")

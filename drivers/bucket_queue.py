from common import *


def history(reqs, items):
    """reqs: (s,x,p) (b,x,v) (d,x) (g,x) (h,x) (l,) (p,k) pop via iterator k, (n,k) fresh iterator,
    (q,k)/(m,k) the same for items()."""
    from pads.bucketqueue import BucketQueue
    code = Coder(items)
    Q = BucketQueue()
    ops = []
    its = {}
    for r in reqs:
        try:
            c = r[0]
            if c == "s":
                _, e = attempt(Q.__setitem__, items[r[1] - 1], r[2])
                ops.append({"op": "set", "x": r[1], "p": r[2], "exc": e})
            elif c == "b":
                _, e = attempt(Q.__setitem__, items[r[1] - 1], r[2])
                ops.append({"op": "setbad", "x": r[1], "exc": e})
            elif c == "d":
                _, e = attempt(Q.__delitem__, items[r[1] - 1])
                ops.append({"op": "del", "x": r[1], "exc": e})
            elif c == "g":
                v, e = attempt(Q.__getitem__, items[r[1] - 1])
                ops.append({"op": "get", "x": r[1], "exc": e, "p": v if e == "" else 0})
            elif c == "h":
                ops.append({"op": "has", "x": r[1], "r": bool(items[r[1] - 1] in Q)})
            elif c == "l":
                ops.append({"op": "len", "r": len(Q)})
            else:
                k = (c, r[1])
                if k not in its:
                    its[k] = iter(Q) if c == "p" else iter(Q.items())
                try:
                    v = next(its[k])
                except StopIteration:
                    ops.append({"op": "pop", "stop": True, "x": 0, "haspri": False, "p": 0})
                    del its[k]
                    continue
                if c == "p":
                    ops.append({"op": "pop", "stop": False, "x": code(v), "haspri": False, "p": 0})
                else:
                    x, p = v
                    ops.append({"op": "pop", "stop": False, "x": code(x), "haspri": True, "p": int(p)})
        except Exception as e:
            ops.append(raised(e))
            break
    return ops


def cases(tier, rng):
    big = tier == "thorough"
    obs = [("l",), ("h", 1), ("g", 1), ("h", 2), ("g", 2)]
    drain = [("q", 9)] * 3
    for k, h in enumerate(generated("bq")):
        reqs = []
        for r in h:
            if "s" in r:
                reqs.append(("s", r["s"][0], r["s"][1]))
            elif "d" in r:
                reqs.append(("d", r["d"]))
            else:
                reqs.append(("p" if k % 2 else "q", 0))
            reqs.append(("l",))
        style = STYLES[k % len(STYLES)]
        yield "gen-%d-%s" % (k, style), lambda reqs=reqs, style=style: history(reqs + obs + drain, names(2, style))
    for k in range(2500 if big else 700):
        n = rng.choice([1, 2, 3, 4, 6, 10])
        style = rng.choice(STYLES)
        lo, hi = rng.choice([(0, 3), (-5, 5), (-60, 60), (0, 200), (-9, -1), (0, 0)])
        reqs = []
        for _ in range(rng.randint(3, 60)):
            c = rng.random()
            x = rng.randint(1, n)
            if c < .42:
                reqs.append(("s", x, rng.randint(lo, hi)))
            elif c < .52:
                reqs.append(("d", x))
            elif c < .58:
                reqs.append(("g", x))
            elif c < .62:
                reqs.append(("h", x))
            elif c < .66:
                reqs.append(("l",))
            elif c < .69:
                reqs.append(("b", x, rng.choice([1.5, "1", None, (1,), 2.0])))
            else:
                reqs.append((rng.choice("pq"), rng.choice([0, 0, 0, 1])))
        reqs += [("g", x) for x in range(1, n + 1)] + [("l",)] + [("q", 5)] * (n + 1) + [("l",)]
        yield "rnd-%d-%s" % (k, style), lambda reqs=reqs, n=n, style=style: history(reqs, names(n, style))
    # one bulk load then drain, and monotone (Dijkstra-like) use
    for k in range(30 if big else 10):
        n = 40
        reqs = [("s", x, rng.randint(-30, 30)) for x in range(1, n + 1)]
        for _ in range(n):
            reqs.append(("p", 0))
            if rng.random() < .5:
                x = rng.randint(1, n)
                reqs.append(("s", x, rng.randint(-30, 60)))
        reqs += [("q", 1)] * (2 * n + 1)
        yield "bulk-%d" % k, lambda reqs=reqs, n=n: history(reqs, names(n, "int"))
    for k in range(20 if big else 6):
        n, hi = rng.choice([100, 200]), [3, 50, 2000, 30000][k % 4]
        reqs = [("s", x, rng.randint(-hi, hi)) for x in rng.sample(range(1, n + 1), n)]
        for _ in range(2 * n):
            c = rng.random()
            x = rng.randint(1, n)
            reqs.append(("s", x, rng.randint(-hi, hi)) if c < .4 else ("d", x) if c < .5 else ("g", x) if c < .6 else ("p", 0))
        reqs += [("l",)] + [("q", 1)] * (n + 1)
        yield "large-%d" % k, lambda reqs=reqs, n=n: history(reqs, names(n, "int"))

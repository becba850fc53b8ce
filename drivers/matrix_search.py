from common import *
import random

INTLIM = 10 ** 8


def num(x):
    return int(x) if isinstance(x, (int, float)) and x == x and abs(x) < INTLIM and x == int(x) else INTLIM


def labels(n, style, rng):
    if style == "range":
        return range(n)
    if style == "desc":
        return list(range(10 * n, 0, -10))[:n]
    if style == "shuffled":
        r = list(range(n))
        rng.shuffle(r)
        return tuple(r)
    return names(n, style)


LSTYLES = ["range", "desc", "shuffled", "str", "opaque", "neg", "mixed"]


def batch(w, rs, cs, seed=0):
    from pads.smawk import ConcaveMinima
    rng = random.Random(seed)
    R, C = labels(len(w), rs, rng), labels(len(w[0]) if w else 0, cs, rng)
    rn, cn = Coder(R), Coder(C)
    ops = []
    try:
        ans = ConcaveMinima(R, C, lambda r, c: w[rn(r) - 1][cn(c) - 1])
        ops.append({"op": "batch", "r": [{"col": cn(c), "val": num(ans[c][0]), "row": rn(ans[c][1])} for c in ans]})
        ops.append({"op": "none", "n": len(ConcaveMinima(R, [], lambda r, c: 0))})
    except Exception as e:
        ops.append(raised(e))
    return {"kind": "batch", "w": w, "ops": ops}


def online(w, init, dep, queries, n):
    """queries: ("v", j) | ("i", j) | ("it", k)"""
    from pads.smawk import OnlineConcaveMinima
    ops = []

    def cost(i, j):
        if j > n:
            return -i
        # asking for a value not yet known recurses forever
        return w[i][j - 1] + M.value(i) if dep else w[i][j - 1]
    try:
        M = OnlineConcaveMinima(cost, init)
        for o, j in queries:
            if o == "v":
                ops.append({"op": "value", "j": j, "r": num(M.value(j))})
            elif o == "i":
                r = M.index(j)
                ops.append({"op": "index", "j": j, "r": r if isinstance(r, int) else -1})
            else:
                for k, (v, i) in zip(range(j + 1), M):
                    ops.append({"op": "value", "j": k, "r": num(v)})
                    ops.append({"op": "index", "j": k, "r": i if isinstance(i, int) else -1})
    except RecursionError:
        ops.append({"op": "premature"})
    except Exception as e:
        ops.append(raised(e))
    return {"kind": "online", "w": w, "init": init, "dep": dep, "n": n, "ops": ops}


def monge(rng, r, c, spread):
    """diff between consecutive rows is nondecreasing along the columns"""
    m = [[rng.randint(-spread, spread) for _ in range(c)]]
    for _ in range(r - 1):
        d = sorted(rng.randint(-spread, spread) for _ in range(c))
        m.append([m[-1][j] - d[j] for j in range(c)])
    return m


def tricost(rng, n, kind):
    if kind == "convex":
        a, b = rng.randint(1, 4), rng.randint(0, 12)
        return [[a * (j - i) * (j - i) - b * (j - i) if i < j else 0 for j in range(1, n + 1)] for i in range(n)]
    if kind == "late":
        t = rng.randint(1, n)
        return [[max(0, (j - i) - t) * 5 + i % 3 * 0 if i < j else 0 for j in range(1, n + 1)] for i in range(n)]
    return monge(rng, n, n, rng.choice([1, 3, 20]))


def queries(rng, n):
    q = []
    for _ in range(rng.randint(1, 12)):
        c = rng.random()
        if c < .4:
            q.append(("v", rng.randint(0, n)))
        elif c < .8:
            q.append(("i", rng.randint(0, n)))
        else:
            q.append(("it", rng.randint(0, n)))
    q.append(("it", n))
    q += [("v", j) for j in rng.sample(range(n + 1), n + 1)]
    return q


def cases(tier, rng):
    big = tier == "thorough"
    k = 0
    for name in ("sm33", "sm44", "sm25"):
        for w in generated(name):
            k += 1
            if name == "sm25" and not big and k % 4:
                continue
            a = (w, LSTYLES[k % 7], LSTYLES[(k // 7) % 7], k)
            yield "batch-%s-%d" % (name, k), lambda a=a: batch(*a)
    for k in range(1500 if big else 400):
        r, c = rng.choice([1, 2, 3, 7, 12, 25]), rng.choice([1, 2, 3, 7, 12, 25])
        w = monge(rng, r, c, rng.choice([0, 1, 2, 10, 500]))
        a = (w, rng.choice(LSTYLES), rng.choice(LSTYLES), k)
        yield "batch-rnd-%d" % k, lambda a=a: batch(*a)
    k = 0
    for name in ("om4", "om5", "om42"):
        for w in generated(name):
            k += 1
            if not big and name == "om5" and k % 3:
                continue
            n = len(w)
            q = queries(rng, n)
            yield "online-%s-%d" % (name, k), lambda a=(w, 0, False, q, n): online(*a)
    for k in range(1200 if big else 300):
        n = rng.choice([1, 2, 3, 5, 8, 14, 30])
        kind = rng.choice(["convex", "late", "monge", "monge"])
        dep = rng.random() < .6
        a = (tricost(rng, n, kind), rng.randint(-5, 5), dep, queries(rng, n), n)
        yield "online-%s-%d" % (kind, k), lambda a=a: online(*a)
    for k in range(30 if big else 10):
        r, c = rng.choice([(40, 70), (70, 40), (64, 64), (100, 9), (9, 100), (130, 33)])
        w = monge(rng, r, c, rng.choice([1, 2, 10, 500]))
        a = (w, rng.choice(LSTYLES), rng.choice(LSTYLES), k)
        yield "batch-large-%d" % k, lambda a=a: batch(*a)
    for k in range(30 if big else 10):
        n = rng.choice([45, 64, 80])
        kind = ["convex", "late", "monge"][k % 3]
        a = (tricost(rng, n, kind), rng.randint(-5, 5), k % 2 == 0, queries(rng, n)[-n:] if k % 4 else queries(rng, n), n)
        yield "online-large-%d" % k, lambda a=a: online(*a)

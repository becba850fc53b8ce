from common import *
from fractions import Fraction


def stream(ks, n, acc, style, every=1):
    from pads.frequencyestimator import FrequencyEstimator
    items = names(n, style)
    code = Coder(items)
    num, den = acc
    ops = []

    def obs(F, total):
        est = []
        for x in items:
            v = F[x]
            est.append(int(round(float(v) * max(total, 1) * 1000)) if v == v and abs(v) < 1e3 else 10 ** 8)
        ops.append({"op": "obs", "est": est, "keys": code.seq(F, 10000)})
    try:
        F = FrequencyEstimator(num / den)
        obs(F, 0)
        for i, k in enumerate(ks):
            F += items[k - 1]
            ops.append({"op": "add", "k": k})
            if i % every == 0 or i == len(ks) - 1:
                obs(F, i + 1)
    except Exception as e:
        ops.append(raised(e))
    return {"n": n, "num": num, "den": den, "ops": ops}


ACC = [(1, 1), (1, 2), (1, 3), (1, 4), (2, 5), (3, 10), (1, 10), (1, 7), (2, 3), (3, 20), (1, 49), (7, 100), (9, 10)]


def cases(tier, rng):
    big = tier == "thorough"
    for k, h in enumerate(generated("mg")):
        style = STYLES[k % len(STYLES)]
        acc = [(1, 2), (1, 3), (1, 1), (2, 5), (7, 10)][k % 5]
        yield "gen-%d" % k, lambda h=h, style=style, acc=acc: stream(h, 4, acc, style)
    for k in range(900 if big else 260):
        acc = rng.choice(ACC)
        n = rng.choice([1, 2, 3, 5, 10, 25, 60])
        m = rng.choice([5, 20, 60, 120])
        shape = rng.choice(["uniform", "zipf", "blocks", "cycle", "heavy", "unseen"])
        if shape == "uniform":
            ks = [rng.randint(1, n) for _ in range(m)]
        elif shape == "zipf":
            ks = [min(n, int(rng.paretovariate(1.1))) for _ in range(m)]
        elif shape == "blocks":
            ks = sorted(rng.randint(1, n) for _ in range(m))
            if rng.random() < .5:
                ks.reverse()
        elif shape == "cycle":
            ks = [i % n + 1 for i in range(m)]
        elif shape == "heavy":
            ks = [1 if rng.random() < .5 else rng.randint(1, n) for _ in range(m)]
        else:
            ks = [rng.randint(1, max(1, n // 2)) for _ in range(m)]
        style = rng.choice(STYLES)
        every = 1 if n <= 10 else 3
        yield "rnd-%d-%s" % (k, shape), lambda a=(ks, n, acc, style, every): stream(*a)

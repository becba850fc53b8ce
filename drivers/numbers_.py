from graphlib import *

CAP = 40000


def rows(held):
    return [[n, [[p, x] for p, x in f.items()]] for n, f in held]


def session(script):
    """script: ("open", kind) | ("take", i, n) | ("again",) | ("mu", n) | ("practical", n)"""
    from pads import eratosthenes as M
    make = {"primes": M.primes, "factored": M.factored_integers, "moebius": M.moebius_sequence, "practical": M.practical_numbers}
    streams, kinds, held, ops = [], [], [], []
    try:
        for s in script:
            if s[0] == "open":
                streams.append(iter(make[s[1]]()))
                kinds.append(s[1])
                ops.append({"op": "open", "kind": s[1]})
            elif s[0] == "take":
                r = []
                for _ in range(s[2]):
                    try:
                        r.append(next(streams[s[1] - 1]))
                    except StopIteration:
                        break
                if kinds[s[1] - 1] == "factored":
                    held += r
                    r = rows(r)
                ops.append({"op": "take", "i": s[1], "n": s[2], "r": r, "cap": CAP})
            elif s[0] == "again":
                ops.append({"op": "again", "r": rows(held[-400:])})
            elif s[0] == "mu":
                ops.append({"op": "mu", "n": s[1], "r": M.moebius_function(s[1])})
            elif s[0] == "practicalLong":
                r = M.is_practical_factorization(dict(s[1]))
                ops.append({"op": "practicalLong", "f": [[long(p), x] for p, x in sorted(s[1])], "r": bool(r)})
            else:
                f = dict(s[1])
                r = M.is_practical_factorization(f)
                ops.append({"op": "practical", "f": [list(q) for q in s[1]], "r": bool(r)})
                if f != dict(s[1]):
                    ops.append({"op": "argument changed"})
    except Exception as e:
        ops.append(raised(e))
    return {"n": 0, "ops": ops}


def prime(n):
    """Miller and Rabin's test with fixed bases, good for the sizes used here."""
    if n < 2 or any(n % p == 0 for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)):
        return n in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def far(rng):
    """Factorisations whose last prime is next to the bound, on either side, up to large sizes."""
    out = []
    for _ in range(25):
        f, total = [], 1
        for p in [2] + sorted(rng.sample([3, 5, 7, 11, 13, 31, 127], rng.randint(0, 3))):
            x = rng.randint(1, 70) if p == 2 else rng.randint(1, 4)
            f.append((p, x))
            total *= (p ** (x + 1) - 1) // (p - 1)
        for start, step in ((total + 1, -1), (total + 2, 1)):
            q = start
            while not prime(q) and q > 1:
                q += step
            if q > 200:
                out.append(f + [(q, rng.choice([1, 1, 2]))])
    return [("practicalLong", f) for f in out]


def cases(tier, rng):
    big = tier == "thorough"
    f = 4 if big else 1
    yield "long-primes", lambda: session([("open", "primes")] + [("take", 1, 150)] * (6 * f))
    yield "long-practical", lambda: session([("open", "practical")] + [("take", 1, 60)] * (6 * f))
    yield "long-factored", lambda: session([("open", "factored")] + [("take", 1, 200), ("again",)] * (8 * f))
    yield "long-moebius", lambda: session([("open", "moebius")] + [("take", 1, 300)] * (8 * f))
    # one at a time, everything read again after every step
    yield "hold-factored", lambda: session([("open", "factored")] + [("take", 1, 1), ("again",)] * 70)
    for k in range(12 * f):
        script, kinds = [], []
        for _ in range(rng.randint(12, 60)):
            c = rng.random()
            if not kinds or (c < .15 and len(kinds) < 6):
                kinds.append(rng.choice(["primes", "factored", "moebius", "practical", "factored"]))
                script.append(("open", kinds[-1]))
            elif c < .65:
                script.append(("take", rng.randint(1, len(kinds)), rng.choice([0, 1, 1, 2, 5, 30])))
            elif c < .8:
                script.append(("again",))
            else:
                script.append(("mu", rng.randint(1, rng.choice([10, 100, 1000, 3000]))))
        yield "mixed-%d" % k, lambda s=script: session(s)
    q = list(range(1, 400))
    rng.shuffle(q)
    yield "mu-shuffled", lambda: session([("mu", n) for n in q])
    small = [p for p in range(2, 60) if all(p % d for d in range(2, p))]
    for k in range(6 * f):
        script = []
        for _ in range(40):
            fs, n = [], 1
            ps = rng.sample(small, rng.randint(0, 4)) if rng.random() < .5 else [p for p in [2, 3, 5, 7, 11, 13, 17] if rng.random() < .5]
            for p in ps:
                x = rng.choice([1, 1, 2, 3])
                if n * p ** (x + 1) < 10 ** 6:
                    n *= p ** (x + 1)
                    fs.append((p, x))
            rng.shuffle(fs)
            script.append(("practical", fs))
        # the prime just around the bound given by the divisor sum
        for base, s in [([(2, 1)], 3), ([(2, 2)], 7), ([(2, 1), (3, 1)], 12), ([(2, 3)], 15), ([(2, 1), (3, 2)], 39), ([(2, 2), (3, 1)], 28), ([(2, 4)], 31)]:
            for p in small:
                if abs(p - s) <= 4 and p not in dict(base):
                    script.append(("practical", base + [(p, rng.choice([1, 2]))]))
        yield "practical-%d" % k, lambda s=script: session(s)
    for k in range(4 * f):
        yield "far-practical-%d" % k, lambda s=far(random.Random(rng.getrandbits(30))): session(s)
    yield "longer-factored", lambda: session([("open", "factored")] + [("take", 1, 500)] * (10 * f))
    yield "longer-moebius", lambda: session([("open", "moebius")] + [("take", 1, 1000)] * (5 * f))
    yield "longer-primes", lambda: session([("open", "primes")] + [("take", 1, 500)] * (4 * f))

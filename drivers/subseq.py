from graphlib import *
import functools


@functools.total_ordering
class Card:
    """Compares by value only; two cards of equal value are told apart by position."""

    def __init__(self, v, pos):
        self.v, self.pos = v, pos

    def __eq__(self, o):
        return self.v == o.v

    def __lt__(self, o):
        return self.v < o.v

    __hash__ = None


class Letter:
    """Can only be compared for equality, and is not hashable."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Letter) and self.v == o.v

    __hash__ = None


KINDS = (lambda v: v, lambda v: "abcdefghij"[v % 10] + str(v), lambda v: (0, v), lambda v: v / 2 - 1, lambda v: [v])


def give(rng, xs):
    """The sequence as one of several kinds of iterable."""
    c = rng.randrange(5)
    return list(xs) if c < 2 else tuple(xs) if c == 2 else iter(list(xs)) if c == 3 else (x for x in list(xs))


def lcs(a, b, seed):
    from pads.lcs import longest_common_subsequence
    rng = random.Random(seed)
    ops = []
    try:
        f = KINDS[seed % 5] if seed % 6 else Letter
        A, B = [f(v) for v in a], [f(v) for v in b]
        back = lambda x: next((v for v in set(a) | set(b) if f(v) == x), -1)
        r = longest_common_subsequence(give(rng, A), give(rng, B))
        ops.append({"op": "lcs", "r": [back(x) for x in r]})
        r = longest_common_subsequence(A, B)
        ops.append({"op": "lcs", "r": [back(x) for x in r]})
        ops.append({"op": "same", "r": A == [f(v) for v in a] and B == [f(v) for v in b]})
        if all(v < 10 for v in a + b):
            r = longest_common_subsequence("".join(map(str, a)), "".join(map(str, b)))
            ops.append({"op": "lcs", "r": [int(x) if x in list("0123456789") else -1 for x in r]})
    except Exception as e:
        ops.append(raised(e))
    return {"a": a, "b": b, "ops": ops}


def lis(a, seed):
    from pads.longest_increasing_subsequence import longest_increasing_subsequence
    rng = random.Random(seed)
    ops = []
    try:
        kinds = list(KINDS)
        kinds[1] = lambda v: "%06d" % (v + 1000)
        f = kinds[seed % 5]
        A = [f(v) for v in a]
        back = lambda x: next((v for v in set(a) if f(v) == x), -999)
        r = longest_increasing_subsequence(give(rng, A))
        ops.append({"op": "lis", "r": [back(x) for x in r]})
        cards = [Card(v, i) for i, v in enumerate(a)]
        r = longest_increasing_subsequence(cards)
        ops.append({"op": "pos", "r": [x.pos + 1 if isinstance(x, Card) else 0 for x in r]})
        ops.append({"op": "same", "r": [x.pos for x in cards] == list(range(len(a)))})
    except Exception as e:
        ops.append(raised(e))
    return {"a": a, "b": [], "ops": ops}


def cases(tier, rng):
    big = tier == "thorough"
    for k, g in enumerate(generated("ab3")):
        yield "ab3-%d" % k, lambda g=g, k=k: lcs(g["a"], g["b"], k)
    for k, g in enumerate(generated("ab5")):
        if big or k % 2 == 0:
            yield "ab5-%d" % k, lambda g=g, k=k: lcs(g["a"], g["b"], k)
    for k, g in enumerate(generated("seq")):
        yield "seq-%d" % k, lambda g=g, k=k: lis(g["s"], k)
    for i in range(1000 if big else 300):
        m, n = rng.randint(0, 25), rng.randint(0, 25)
        v = rng.choice([2, 3, 4, 8, 30])
        a = [rng.randrange(v) for _ in range(m)]
        b = [rng.randrange(v) for _ in range(n)]
        c = rng.random()
        if c < .2:
            b = [x for x in a if rng.random() < .7]
        elif c < .4:
            b = a[::-1]
        elif c < .5:
            b = list(a)
            rng.shuffle(b)
        yield "lcs-%d" % i, lambda a=a, b=b, i=i: lcs(a, b, i)
    for i in range(1200 if big else 400):
        n = rng.randint(0, 40)
        v = rng.choice([1, 2, 4, 10, 100])
        a = [rng.randrange(-v, v) for _ in range(n)]
        c = rng.random()
        if c < .15:
            a.sort()
        elif c < .3:
            a.sort(reverse=True)
        elif c < .5:
            a = list(range(n))
            rng.shuffle(a)
        yield "lis-%d" % i, lambda a=a, i=i: lis(a, i)
    for k in range(2):
        n = 200
        a = list(range(n)) if k == 0 else list(range(n, 0, -1))
        yield "long-%d" % k, lambda a=a: lis(a, 1)
    for k in range(30 if big else 10):
        v = rng.choice([2, 4, 30, 300])
        a = [rng.randrange(v) for _ in range(rng.randint(50, 110))]
        b = [rng.randrange(v) for _ in range(rng.randint(50, 110))]
        if k % 3 == 0:
            b = [x for x in a if rng.random() < .8]
        yield "lcs-large-%d" % k, lambda a=a, b=b, k=k: lcs(a, b, k)
    for k in range(30 if big else 10):
        v = rng.choice([3, 20, 1000])
        a = [rng.randrange(-v, v) + i * (k % 3) for i in range(rng.randint(80, 200))]
        yield "lis-large-%d" % k, lambda a=a, k=k: lis(a, k)

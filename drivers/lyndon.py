from graphlib import *


def gen(s, n):
    from pads import lyndon as M
    ops = []
    try:
        lim = s ** max(n, 1) * (n + 1) + 10
        ops.append({"op": "limited", "r": [list(w) for w in take_copies(M.LengthLimitedLyndonWords(s, n), lim)]})
        ops.append({"op": "exact", "r": take_copies(M.LyndonWordsWithLength(s, n), lim)})
        ops.append({"op": "count", "r": M.CountLyndonWords(s, n)})
        if s > 1:
            out = []
            for w in M.LyndonWords(s):
                if len(w) > n or len(out) > lim:
                    break
                out.append(list(w))
            ops.append({"op": "stream", "r": out})
        if n and s:
            ops.append({"op": "bruijn", "r": list(M.DeBruijnSequence(s, n))})
    except Exception as e:
        ops.append(raised(e))
    return {"s": s, "n": n, "w": [], "ops": ops}


def take_copies(it, limit):
    """Words may be reused by their generator, so each is copied as it comes."""
    out = []
    for w in it:
        out.append(list(w))
        if len(out) > limit:
            break
    return out


def count(s, n):
    from pads import lyndon as M
    v, exc = attempt(M.CountLyndonWords, s, n)
    return {"s": s, "n": n, "w": [], "ops": [{"op": "raised", "exc": exc} if exc else {"op": "count", "r": v}]}


def counts(s, n):
    """Numbers of words of every length to n, as long numbers."""
    from pads import lyndon as M
    out = []
    for k in range(1, n + 1):
        v, exc = attempt(M.CountLyndonWords, s, k)
        if exc or type(v) is not int:
            return {"s": s, "n": n, "w": [], "ops": [{"op": "raised", "exc": exc or "not a whole number"}]}
        out.append(long(v))
    return {"s": s, "n": n, "w": [], "ops": [{"op": "counts", "r": out}]}


def word(w, seed):
    from pads import lyndon as M
    ops = []
    kinds = [(list(w), lambda x: x), (tuple(w), lambda x: x)]
    if max(w, default=0) < 26 and min(w, default=0) >= 0:
        kinds.append(("".join(chr(97 + x) for x in w), lambda c: ord(c) - 97))
    kinds.append(([(x, "q") for x in w], lambda p: p[0]))
    for x, f in [kinds[seed % len(kinds)], kinds[(seed // 7 + 1) % len(kinds)]]:
        back = lambda y: [f(v) for v in y]
        try:
            keep = x[:]
            fs = take(M.ChenFoxLyndon(x), len(w) + 5)
            ops.append({"op": "factors", "r": [back(y) for y in fs]})
            ops.append({"op": "type", "r": all(type(y) is type(x) for y in fs)})
            ops.append({"op": "breaks", "r": take(M.ChenFoxLyndonBreakpoints(x), len(w) + 5)})
            ops.append({"op": "islyn", "r": bool(M.isLyndonWord(x))})
            ops.append({"op": "rotation", "r": back(M.SmallestRotation(x))})
            if w:
                ops.append({"op": "suffix", "r": back(M.SmallestSuffix(x))})
            if keep != x:
                ops.append({"op": "broken", "what": "argument changed"})
        except Exception as e:
            ops.append(raised(e))
    return {"s": 0, "n": 0, "w": list(w), "ops": ops}


def cases(tier, rng):
    big = tier == "thorough"
    for s in range(0, 9):
        for n in range(0, 14):
            if s ** n <= (4100 if big else 1100):
                yield "gen-%d-%d" % (s, n), lambda s=s, n=n: gen(s, n)
    for s in range(0, 12):
        for n in range(0, 31):
            if s ** n < 2 ** 31:
                yield "count-%d-%d" % (s, n), lambda s=s, n=n: count(s, n)
    for s in list(range(1, 13)) + [26, 37, 100, 256]:
        yield "counts-%d" % s, lambda s=s: counts(s, 60 if big or s < 5 else 36)
    for name in ("w3", "w2"):
        for k, g in enumerate(generated(name)):
            if big or name == "w2" or k % 2 == 0:
                yield "%s-%d" % (name, k), lambda g=g, k=k: word(g["w"], k)
    for i in range(1500 if big else 400):
        n = rng.randint(1, 30)
        v = rng.choice([1, 2, 2, 3, 5, 20])
        w = [rng.randrange(v) for _ in range(n)]
        c = rng.random()
        if c < .3:
            b = w[:rng.randint(1, 6)]
            w = (b * 12)[:n]
        elif c < .4:
            w = sorted(w)
        elif c < .5:
            w = sorted(w, reverse=True)
        elif c < .6:
            w = [-x for x in w]
        yield "word-%d" % i, lambda w=w, i=i: word(w, i)

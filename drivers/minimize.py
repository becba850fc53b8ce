from automata_lib import *


def one(t, alpha, det, wrap=None):
    S = Session(alpha)
    A = table_dfa(t, alpha, wrap) if det else lookup_nfa(t, alpha, wrap)
    S.automaton(t, A)
    M = S.guard(A.minimize)
    if not S.dead:
        S.guard(S.same, 0, M, "minimized", True)
        S.size(0, M)
        M2 = S.guard(M.minimize)
        if not S.dead:
            S.size(0, M2)
            S.cmp(0, 0, M, M2, ("eq", "ne"))
    return S.result()


def two(t1, d1, t2, d2, alpha):
    S = Session(alpha)
    A = table_dfa(t1, alpha) if d1 else lookup_nfa(t1, alpha)
    B = table_dfa(t2, alpha, lambda q: (0, q)) if d2 else lookup_nfa(t2, alpha)
    S.automaton(t1, A)
    S.automaton(t2, B)
    M, N = S.guard(A.minimize), S.guard(B.minimize)
    if not S.dead:
        S.cmp(0, 1, M, N, ("eq", "ne"))
        S.cmp(1, 0, N, M, ("eq", "ne"))
        S.size(0, M)
        S.size(1, N)
    return S.result()


def twin(rng, t, k):
    """Same language with some states duplicated, or a near miss."""
    n = t["n"]
    m = n + rng.randint(1, 3)
    of = list(range(1, n + 1)) + [rng.randint(1, n) for _ in range(m - n)]
    d = [[[rng.choice([j + 1 for j in range(m) if of[j] == t["d"][of[i] - 1][c][0]])] for c in range(k)] for i in range(m)]
    final = [i + 1 for i in range(m) if of[i] in t["final"]]
    if rng.random() < .4:
        q = rng.randint(1, m)
        final = [x for x in final if x != q] if q in final else final + [q]
    return {"n": m, "init": [1], "final": final, "d": d}


def rewired(rng, t, k):
    """The same automaton with states renumbered and some arrows moved to another
    state that accepts alike: as many states, mostly another language."""
    n = t["n"]
    to = list(range(1, n + 1))
    if rng.random() < .7:
        to[1:] = rng.sample(to[1:], n - 1)
    d = [None] * n
    for i in range(n):
        d[to[i] - 1] = [[to[x - 1] for x in t["d"][i][c]] for c in range(k)]
    final = [to[x - 1] for x in t["final"]]
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        i, c = rng.randrange(n), rng.randrange(k)
        like = [x for x in range(1, n + 1) if (x in final) == (d[i][c][0] in final)]
        d[i][c] = [rng.choice(like)]
    return {"n": n, "init": [1], "final": final, "d": d}


def layered(rng, n, k):
    """Chain-like automata: long distinguishing strings."""
    d = [[[min(i + 2, n) if rng.random() < .7 else rng.randint(1, n)] for _ in range(k)] for i in range(n)]
    return {"n": n, "init": [1], "final": [n] if rng.random() < .6 else [rng.randint(1, n)], "d": d}


def cases(tier, rng):
    big = tier == "thorough"
    for k, h in enumerate(generated("hop")):
        n = len(h["d"])
        t = {"n": n, "init": [1], "final": h["f"], "d": [[[x] for x in row] for row in h["d"]]}
        yield "gen-%d" % k, lambda t=t, k=k: one(t, ["a", "b"], True, None if k % 3 else (lambda q: ("s", q)))
    for k in range(5000 if big else 1300):
        n, a = rng.randint(3, 9), rng.choice([["a"], ["a", "b"], ["a", "b"], ["0", "1", "2"]])
        t = random_table(rng, n, len(a), det=True) if rng.random() < .7 else layered(rng, n, len(a))
        if rng.random() < .5:
            t = twin(rng, t, len(a))
        yield "dfa-%d" % k, lambda t=t, a=a: one(t, a, True)
    for k in range(900 if big else 250):
        a = rng.choice([["a"], ["a", "b"]])
        t = random_table(rng, rng.randint(1, 5), len(a))
        yield "nfa-%d" % k, lambda t=t, a=a: one(t, a, False)
    for k in range(1500 if big else 400):
        a = rng.choice([["a"], ["a", "b"]])
        t = random_table(rng, rng.randint(1, 5), len(a), det=True)
        u = twin(rng, t, len(a)) if rng.random() < .6 else random_table(rng, rng.randint(1, 5), len(a), det=True)
        yield "two-%d" % k, lambda t=t, u=u, a=a: two(t, True, u, True, a)
    for k in range(2500 if big else 700):
        a = rng.choice([["a"], ["a", "b"], ["a", "b"]])
        n = rng.randint(2, 8)
        t = random_table(rng, n, len(a), det=True) if rng.random() < .7 else layered(rng, n, len(a))
        u = rewired(rng, t, len(a))
        yield "near-%d" % k, lambda t=t, u=u, a=a: two(t, True, u, True, a)

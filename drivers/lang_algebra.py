from automata_lib import *
from minimize import rewired


def base(S, rng):
    """Add one random operand; returns its automaton."""
    k = len(S.alpha)
    c = rng.random()
    if c < .45 and isinstance(S.alpha[0], str):
        for _ in range(50):
            s = random_expr(rng, rng.randint(k, 5), "".join(S.alpha))
            if set(expr_symbols(s)) == set(S.alpha) and len(s) < 30:
                break
        else:
            s = "(" + "+".join(S.alpha) + ")*"
        L = S.regex(s)
        return L.recognizer if L else None
    det = c < .75
    t = random_table(rng, rng.randint(1, 4), k, det=det)
    wrap = rng.choice([None, lambda q: ("q", q)])
    A = table_dfa(t, S.alpha, wrap) if det else lookup_nfa(t, S.alpha, wrap)
    S.automaton(t, A)
    return A


def operation(S, autos, o, i, j, rng):
    """The operation through language objects or through automata."""
    from pads.automata import language
    lang = rng.random() < .5
    a, b = S.L[i], S.L[j]
    A, B = autos[i], autos[j]
    if o == "not":
        f = (lambda: ~a) if lang else (lambda: language(A.complement()))
    elif o == "and":
        f = (lambda: a & b) if lang else (lambda: language(A.intersection(B)))
    elif o == "or":
        f = (lambda: a | b) if lang else (lambda: language(A.union(B)))
    elif o == "xor":
        f = (lambda: a ^ b) if lang else (lambda: language(A.symmetricDifference(B)))
    elif o == "rev":
        f = lambda: language(A.reverse())
    else:
        m = rng.choice(["minimize", "asDFA", "asNFA", "renumber", "revrev"])
        f = (lambda: language(A.reverse().reverse())) if m == "revrev" else (lambda: language(getattr(A, m)()))
    return f


def session(seed, nops, alpha):
    rng = random.Random(seed)
    S = Session(alpha)
    autos = [base(S, rng) for _ in range(2)]
    for _ in range(nops):
        if S.dead:
            break
        n = len(S.L)
        i, j = rng.randrange(n), rng.randrange(n)
        o = rng.choice(["not", "and", "or", "xor", "rev", "copy"])
        f = operation(S, autos, o, i, j, rng)
        e = {"op": o, "a": i + 1}
        if o in ("and", "or", "xor"):
            e["b"] = j + 1
        L = S.make(e, f)
        if S.dead:
            break
        autos.append(L.recognizer)
        q = len(S.L) - 1
        S.has(q, words(len(alpha), 2))
        S.guard(S.same, q, L.recognizer, o)
        if rng.random() < .5:
            S.truth(q)
    if not S.dead:
        n = len(S.L)
        for i in range(n):
            S.truth(i)
            for j in range(n):
                if i != j or rng.random() < .3:
                    S.cmp(i, j, kinds=("eq", "ne", "le", "ge", "lt", "gt") if rng.random() < .5 else ("eq", "le"))
        for i in range(2):            # operands unchanged by all of this
            S.guard(S.same, i, autos[i], "operand afterwards")
    return S.result()


def replay(h, alpha, seed):
    """A session of the model."""
    rng = random.Random(seed)
    S = Session(alpha)
    autos = []
    for b in h["base"]:
        t = {"n": b["n"], "init": [1], "final": b["f"], "d": [[[q] for q in row] for row in b["d"]]}
        A = table_dfa(t, S.alpha) if rng.random() < .7 else lookup_nfa(t, S.alpha)
        S.automaton(t, A)
        autos.append(A)
    for e in h["ops"]:
        if S.dead:
            break
        L = S.make(dict(e), operation(S, autos, e["op"], e["a"] - 1, e.get("b", 1) - 1, rng))
        if not S.dead:
            autos.append(L.recognizer)
    if not S.dead:
        n = len(S.L)
        for i in range(n):
            S.guard(S.same, i, autos[i], "in the end")
            S.truth(i)
        for i in range(n):
            S.cmp(i, n - 1, kinds=rng.sample(("eq", "ne", "le", "ge", "lt", "gt"), 2))
    return S.result()


def pairs(ts, alpha):
    """Compare tiny automata pairwise."""
    S = Session(alpha)
    for t in ts:
        S.automaton(t, table_dfa(t, alpha))
    if not S.dead:
        for i in range(len(ts)):
            S.truth(i)
            for j in range(len(ts)):
                S.cmp(i, j)
    return S.result()


def mixed(seed):
    """Operands that do not belong together."""
    import operator
    from pads.automata import RegularLanguage
    rng = random.Random(seed)
    S = Session(["a", "b"])
    S.regex("(a+b)*a")
    t = random_table(rng, 3, 2, det=True)
    S.automaton(t, table_dfa(t, ["a", "b"]))
    others = [RegularLanguage("a*"), RegularLanguage("(a+c)*a"), RegularLanguage("a+b+c"), RegularLanguage("()"),
              ~RegularLanguage("ab+c")]
    strange = [7, "a", None, {"a"}, others[0].recognizer]
    for i in range(len(S.L)):
        for o in others:
            for k in ("eq", "ne", "le", "ge", "lt", "gt", "and_", "or_", "xor"):
                x, y = (S.L[i], o) if rng.random() < .5 else (o, S.L[i])
                v, exc = attempt(getattr(operator, k), x, y)
                S.ops.append({"op": "mixed", "k": k, "r": bool(v), "exc": exc})
        for o in strange:
            for k in ("and_", "or_", "xor"):
                v, exc = attempt(getattr(operator, k), S.L[i], o)
                S.ops.append({"op": "mixed", "k": k, "r": bool(v), "exc": exc})
    for o in (7, None, ["a"], {"a"}):
        _, exc = attempt(RegularLanguage, o)
        S.ops.append({"op": "mixed", "k": "language of " + type(o).__name__, "r": False, "exc": exc})
    for i in range(len(S.L)):
        S.guard(S.same, i, S.L[i].recognizer, "operand afterwards")
    return S.result()


def cases(tier, rng):
    big = tier == "thorough"
    for k in range(1600 if big else 420):
        alpha = rng.choice([["a"], ["a", "b"], ["a", "b"], ["0", "1"], ["x", "y", "z"], [1, 2], [0, -5]])
        yield "ops-%d" % k, lambda s=rng.getrandbits(32), n=rng.randint(1, 4), a=alpha: session(s, n, a)
    for name, alpha in (("al", ["a", "b"]), ("alu", [7])):
        for k, h in enumerate(generated(name)):
            if big or k % 4 == 0:
                yield "gen-%s-%d" % (name, k), lambda h=h, k=k, a=alpha: replay(h, a, k)
    for k in range(6):
        yield "mixed-%d" % k, lambda s=rng.getrandbits(32): mixed(s)
    # all one-symbol automata with two states, compared pairwise in groups
    tiny = [{"n": 2, "init": [1], "final": f, "d": [[[a]], [[b]]]}
            for a in (1, 2) for b in (1, 2) for f in ([], [1], [2], [1, 2])]
    for k in range(40 if big else 12):
        yield "tiny-%d" % k, lambda ts=rng.sample(tiny, 5): pairs(ts, ["a"])
    for k in range(120 if big else 40):
        ts = [random_table(rng, rng.randint(1, 3), 2, det=True) for _ in range(4)]
        yield "pairs-%d" % k, lambda ts=ts: pairs(ts, ["a", "b"])
    for k in range(160 if big else 60):
        a = rng.choice([["a"], ["a", "b"]])
        t = random_table(rng, rng.randint(3, 6), len(a), det=True)
        ts = [t, rewired(rng, t, len(a)), rewired(rng, t, len(a)), rewired(rng, t, len(a))]
        yield "near-%d" % k, lambda ts=ts, a=a: pairs(ts, a)

from automata_lib import *


def one(t, alpha, det, style):
    S = Session(alpha)
    wrap = (None, lambda q: ("q", q))[style % 2]
    A = table_dfa(t, alpha, wrap) if det else lookup_nfa(t, alpha, wrap)
    S.automaton(t, A)
    S.guard(S.extract, 0, A)
    for what, f in (("as NFA", lambda: A.asNFA()), ("as DFA", lambda: A.asDFA()),
                    ("renumbered", lambda: A.renumber(style % 3)),
                    ("back and forth", lambda: A.asDFA().asNFA().asDFA())):
        B = S.guard(f)
        if not S.dead:
            S.guard(S.same, 0, B, what, "DFA" in what or "forth" in what)
    if not S.dead:
        M = S.guard(A.minimize)
        if not S.dead and style % 2:
            S.guard(S.extract, 0, M)
    if not S.dead:
        out = io.StringIO()
        R = S.guard(A.renumber)
        S.guard(R.pprint, out)
        if not S.dead:
            t2, exc = attempt(listing, out.getvalue(), alpha)
            S.ops.append({"op": "raised", "exc": "unreadable listing"} if exc else
                         {"op": "same", "a": 1, "t": t2, "alpha": alpha, "what": "printed listing", "det": False})
        if not S.dead and det and not wrap:
            out = io.StringIO()
            S.guard(A.pprint, out)
            if not S.dead:
                t2, exc = attempt(listing, out.getvalue(), alpha)
                S.ops.append({"op": "raised", "exc": "unreadable listing"} if exc else
                             {"op": "same", "a": 1, "t": t2, "alpha": alpha, "what": "printed listing", "det": False})
    return S.result()


def expr(s):
    """Expression -> automaton -> expression."""
    alpha = expr_symbols(s)
    S = Session(alpha, False)
    L = S.regex(s)
    if not S.dead:
        r = S.guard(S.extract, 0, L.recognizer)
        if not S.dead and r is not None:
            from pads.automata import RegularLanguage
            L2 = S.guard(RegularLanguage, r)
            if not S.dead:
                S.guard(S.same, 0, L2.recognizer, "extracted expression read back")
    return S.result()


def cases(tier, rng):
    big = tier == "thorough"
    k = 0
    for name in ("el1", "el2"):
        for t in generated(name):
            k += 1
            if name == "el2" and not big and k % 2:
                continue
            yield "gen-%s-%d" % (name, k), lambda t=t, k=k: one(t, ["a", "b"][:len(t["d"][0])], False, k)
    for k in range(1500 if big else 350):
        det = rng.random() < .6
        a = rng.choice([["a"], ["a", "b"], ["0", "1"]])
        t = random_table(rng, rng.randint(2, 4 if det else 3), len(a), det=det, density=.3)
        yield "rnd-%d" % k, lambda t=t, a=a, det=det, s=k: one(t, a, det, s)
    for k in range(600 if big else 200):
        s = random_expr(rng, rng.randint(2, 5), rng.choice(["ab", "a"]))
        if len(s) < 25:
            yield "expr-%d-%s" % (k, s), lambda s=s: expr(s)

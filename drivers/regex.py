from automata_lib import *


def one(s, upto, extra, redo=False):
    alpha = expr_symbols(s)
    S = Session(alpha)
    L = S.regex(s)
    if not S.dead:
        S.has(0, words(len(alpha), upto))
        S.has(0, [[0], [1, 0] if alpha else [0, 0]])
        S.has(0, extra, "call")
        S.has(0, list(words(len(alpha), 1)), "list")
        S.guard(S.same, 0, L.recognizer, "recognizer")
        from pads.automata import RegExp
        A, exc = attempt(RegExp, s)
        if exc:
            S.ops.append({"op": "raised", "exc": exc})
        else:
            S.guard(S.same, 0, A, "expression automaton")
    return S.result()


def broken(texts):
    """Texts that must be refused, as language and as automaton."""
    from pads.automata import RegularLanguage, RegExp
    ops = []
    for s in texts:
        for f in (RegularLanguage, RegExp):
            _, exc = attempt(f, s)
            ops.append({"op": "text", "s": list(s), "exc": exc})
    return {"alpha": [], "full": True, "ops": ops}


def cases(tier, rng):
    big = tier == "thorough"
    yield "empty", lambda: one("", 2, [])
    for k, h in enumerate(generated("rx")):
        s = "".join(h)
        yield "gen-" + s, lambda s=s: one(s, 3, [])
    texts = list(generated("rt"))
    bad = ["".join(t["s"]) for t in texts if t["broken"]]
    for k in range(0, len(bad), 150):
        yield "broken-%d" % k, lambda b=bad[k:k + 150]: broken(b)
    for t in texts:
        s = "".join(t["s"])
        if not t["broken"]:
            yield "text-" + s, lambda s=s: one(s, 2, [])
    long = []
    for k in range(200):
        s = random_expr(rng, rng.randint(3, 12), "ab")
        i = rng.randint(0, len(s))
        c = rng.random()
        long.append(s + "\\" if c < .1 else s[:i] + rng.choice("()") + s[i:])
    long = [s for s in long if "\\(" not in s and "\\)" not in s]
    yield "broken-long", lambda: broken(long)
    seen = set()
    for k in range(2500 if big else 700):
        syms = rng.choice(["ab", "ab", "a", "abc", "01", "a+", "*(b"])
        s = random_expr(rng, rng.randint(2, 9 if big else 7), syms)
        if len(s) > 60 or s in seen:
            continue
        seen.add(s)
        n = len(expr_symbols(s))
        extra = [[rng.randint(1, n) for _ in range(rng.randint(4, 7))] for _ in range(12)] if n else []
        yield "rnd-%d-%s" % (k, s), lambda s=s, extra=extra, n=n: one(s, 3 if n > 2 else 4, extra)

from graphlib import *


def levels(I, roots):
    from pads.bfs import breadth_first_levels
    ops = []
    try:
        for r in roots:
            out = []
            for lv in take(breadth_first_levels(I.G, I.items[r]), I.n + 2):
                out.append(I.back(lv))
            ops.append({"op": "levels", "v": r + 1, "r": out})
    except Exception as e:
        ops.append(raised(e))
    return ops


def lex(I):
    from pads.lex_bfs import lex_bfs
    try:
        return [{"op": "lexbfs", "r": I.code.seq(take(lex_bfs(I.G), I.n + 2))}]
    except Exception as e:
        return [raised(e)]


def run(I, roots, sym):
    ops = levels(I, roots)
    if sym:
        ops += lex(I)
    return I.head(ops=ops)


def cases(tier, rng):
    big = tier == "thorough"
    yield "empty", lambda: run(Inst(0, []), [], True)
    for name in ("ug", "ug4"):
        for k, h in enumerate(generated(name)):
            n = len(h)
            yield "gen-%s-%d" % (name, k), lambda h=h, n=n, k=k: run(
                Inst(n, arcs_of(h), style_of(k), container_of(k), k), range(n), True)
    for k in range(1200 if big else 350):
        n = rng.choice([1, 2, 6, 7, 8, 12, 20])
        e = undirected(rng, n)
        yield "und-%d" % k, lambda n=n, e=e, k=k, s=rng.getrandbits(30): run(
            Inst(n, e, style_of(k), container_of(k), s, True), [0, n // 2, n - 1], True)
    for k in range(600 if big else 150):
        n = rng.choice([2, 3, 4, 8, 15])
        e = directed(rng, n)
        yield "dir-%d" % k, lambda n=n, e=e, k=k, s=rng.getrandbits(30): run(
            Inst(n, e, style_of(k), container_of(k), s), [0, n // 2, n - 1], False)
    for k, n, e, s in larges(rng, 40 if big else 12):
        yield "large-%d" % k, lambda n=n, e=e, k=k, s=s: run(
            Inst(n, e, style_of(k), container_of(k), s, True), [0, n - 1], True)
    for k, n, e, s in larges(rng, 20 if big else 6, kind=directed):
        yield "large-dir-%d" % k, lambda n=n, e=e, k=k, s=s: run(
            Inst(n, e, style_of(k), container_of(k), s), [0, n - 1], False)
    for k, (name, n, e, s) in enumerate(shapes(rng, 20)):
        yield "shape-" + name, lambda n=n, e=e, k=k, s=s: run(Inst(n, e, style_of(k), container_of(k), s, True), [0, n - 1] if n else [], True)

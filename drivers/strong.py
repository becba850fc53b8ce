from graphlib import *


def run(I):
    from pads.strong_connectivity import StronglyConnectedComponents, Condensation
    ops = []
    try:
        S = StronglyConnectedComponents(I.G)
        r = [I.back(C) for C in take(iter(S), I.n + 2)]
        ops.append({"op": "scc", "r": r, "len": len(S)})
        C = Condensation(I.G)
        ops.append({"op": "cond", "r": [[I.code.seq(c), [I.code.seq(d) for d in C[c]]] for c in C]})
    except Exception as e:
        ops.append(raised(e))
    return I.head(ops=ops)


def cases(tier, rng):
    big = tier == "thorough"
    yield "empty", lambda: run(Inst(0, []))
    for name in ("dg", "dg4"):
        for k, h in enumerate(generated(name)):
            if name == "dg4" and not big and k % 4:
                continue
            yield "gen-%s-%d" % (name, k), lambda h=h, k=k: run(
                Inst(len(h), arcs_of(h), style_of(k), container_of(k), k))
    for k in range(3000 if big else 900):
        n = rng.choice([1, 2, 4, 5, 6, 8, 12, 20, 30])
        e = directed(rng, n)
        yield "rnd-%d" % k, lambda n=n, e=e, k=k, s=rng.getrandbits(30): run(
            Inst(n, e, style_of(k), container_of(k), s))
    for k, n, e, s in larges(rng, 60 if big else 20, kind=directed):
        yield "large-%d" % k, lambda n=n, e=e, k=k, s=s: run(Inst(n, e, style_of(k), container_of(k), s))
    for k, (name, n, e, s) in enumerate(dirshapes(rng, 20)):
        yield "shape-" + name, lambda n=n, e=e, k=k, s=s: run(Inst(n, e, style_of(k), container_of(k), s))

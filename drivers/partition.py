from common import *


class Run:
    def __init__(self, items, start, container):
        from pads.partition_refinement import PartitionRefinement
        self.items, self.code = items, Coder(items)
        self.keep, self.tok = [], {}
        self.ops = []
        self.start = start
        given = container([items[i - 1] for i in start])
        self.P = PartitionRefinement(given)
        for S in self.P:
            self.token(S)

    def token(self, S):
        if id(S) not in self.tok:
            self.keep.append(S)
            self.tok[id(S)] = len(self.keep)
        return self.tok[id(S)]

    def els(self, S):
        return sorted(self.code(x) for x in S)

    def do(self, r):
        P, items = self.P, self.items
        try:
            if r[0] == "refine":
                s = list(r[1])
                arg = r[2]([items[i - 1] for i in s])
                out = P.refine(arg)
                self.ops.append({"op": "refine", "s": s, "r": [
                    {"in": self.els(a), "out": self.els(b), "tin": self.token(a), "tout": self.token(b)}
                    for a, b in out]})
            elif r[0] == "self":      # refine by one of the partition's own blocks
                blocks = [b for b in P if len(b)]
                if blocks:
                    b = blocks[r[1] % len(blocks)]
                    s = self.els(b)
                    out = P.refine(b)
                    self.ops.append({"op": "refine", "s": s, "r": [
                        {"in": self.els(a), "out": self.els(c), "tin": self.token(a), "tout": self.token(c)}
                        for a, c in out]})
            elif r[0] == "add":       # add x to the block of y
                try:
                    B = P[items[r[2] - 1]]
                except Exception:
                    B = set([items[r[2] - 1]])   # a foreign set
                t = self.token(B)
                _, exc = attempt(P.add, items[r[1] - 1], B)
                self.ops.append({"op": "add", "x": r[1], "tok": t, "exc": exc})
            elif r[0] == "remove":
                _, exc = attempt(P.remove, items[r[1] - 1])
                self.ops.append({"op": "remove", "x": r[1], "exc": exc})
            elif r[0] == "freeze":
                P.freeze()
                self.ops.append({"op": "freeze", "r": [{"tok": self.token(b), "els": self.els(b)} for b in P]})
            elif r[0] == "look":
                self.ops.append({"op": "iter", "r": [{"tok": self.token(b), "els": self.els(b)} for b in P]})
                self.ops.append({"op": "len", "r": len(P)})
                for i in range(1, len(items) + 1):
                    B, exc = attempt(lambda: P[items[i - 1]])
                    self.ops.append({"op": "get", "x": i, "exc": exc, "tok": 0 if exc else self.token(B),
                                     "els": [] if exc else self.els(B)})
        except Exception as e:
            self.ops.append(raised(e))
            return False
        return True

    def result(self):
        return {"items": sorted(set(self.start)), "ops": self.ops}


def history(reqs, n, start, style, container):
    R = Run(names(n, style), start, container)
    for r in [("look",)] + reqs:
        if not R.do(r):
            break
    return R.result()


def gen_iter(xs):
    return (x for x in xs)


def dup(xs):
    return xs + xs[:2]


CONT = [list, set, frozenset, tuple, gen_iter, dup, lambda xs: {x: 1 for x in xs}]


def cases(tier, rng):
    big = tier == "thorough"
    for k, h in enumerate(generated("pr")):
        c = CONT[k % len(CONT)]
        reqs = []
        for r in h:
            reqs.append(("refine", r["f"], c) if "f" in r else ("remove", r["r"]) if "r" in r else ("add",) + tuple(r["a"]))
            reqs.append(("look",))
        reqs += [("freeze",), ("look",)]
        if k % 3 == 0:
            reqs += [("freeze",), ("look",)]
        style = STYLES[k % len(STYLES)]
        yield "gen-%d" % k, lambda reqs=reqs, style=style: history(reqs, 4, [1, 2, 3], style, list)
    for k in range(2000 if big else 500):
        n = rng.choice([2, 3, 5, 8, 13, 20])
        start = rng.sample(range(1, n + 1), rng.randint(0, n))
        if rng.random() < .3:
            start = start + start[:3]
        reqs = []
        for _ in range(rng.randint(1, 20)):
            c = rng.random()
            if c < .5:
                m = rng.choice([1, 2, n // 2, n - 1, n])
                reqs.append(("refine", rng.sample(range(1, n + 1), max(0, min(m, n))), rng.choice(CONT)))
            elif c < .58:
                reqs.append(("self", rng.randrange(50)))
            elif c < .75:
                reqs.append(("add", rng.randint(1, n), rng.randint(1, n)))
            elif c < .9:
                reqs.append(("remove", rng.randint(1, n)))
            else:
                reqs.append(("look",))
        reqs.append(("look",))
        if rng.random() < .5:
            reqs += [("freeze",), ("look",)] * rng.choice([1, 2])
        style, cont = rng.choice(STYLES), rng.choice([list, set, tuple, gen_iter])
        yield "rnd-%d" % k, lambda a=(reqs, n, start, style, cont): history(*a)
    for k in range(40 if big else 12):
        n = rng.choice([60, 150, 300])
        start = rng.sample(range(1, n + 1), rng.randint(n // 2, n))
        reqs = []
        for _ in range(rng.randint(5, 14)):
            c = rng.random()
            if c < .7:
                reqs.append(("refine", rng.sample(range(1, n + 1), rng.choice([1, n // 8, n // 3, n // 2, n - 2])), rng.choice(CONT)))
            elif c < .85:
                reqs.append(("add", rng.randint(1, n), rng.choice(start)))
            else:
                reqs.append(("remove", rng.randint(1, n)))
        reqs += [("look",), ("freeze",), ("look",)]
        style, cont = rng.choice(STYLES), rng.choice([list, set, tuple, gen_iter])
        yield "large-%d" % k, lambda a=(reqs, n, start, style, cont): history(*a)

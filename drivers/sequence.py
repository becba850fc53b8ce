from common import *
import re

KINDS = {"plain": ("pads.sequence", "Sequence"),
         "simple": ("pads.ordered_sequence", "SimpleOrderedSequence"),
         "log": ("pads.ordered_sequence", "LogarithmicOrderedSequence")}
CMP_PAIRS = 6


class Run:
    """One sequence under test.  keyed: None, "abs" (either sign names an item) or "id"."""

    def __init__(self, kind, n, style, init, keyed=None, rng=None):
        import importlib
        mod, cls = KINDS[kind]
        cls = getattr(importlib.import_module(mod), cls)
        self.kind, self.n, self.keyed, self.rng = kind, n, keyed, rng
        self.ops = []
        if keyed == "abs":
            self.items = list(range(1, n + 1))
        elif keyed == "id":
            self.items = [[i] for i in range(n)]
        else:
            self.items = names(n, style)
        self.init = [self.name(i) for i in init]
        kw = {"key": {"abs": abs, "id": id}[keyed]} if keyed else {}
        try:
            self.S = cls([self.item(i) for i in self.init], **kw) if (init or kw) else cls()
        except Exception as e:
            self.S = None
            self.ops.append(raised(e))
        self.code = Coder(self.items if keyed != "id" else [id(x) for x in self.items])

    def name(self, i):
        """Item i by one of its names."""
        return -i if self.keyed == "abs" and self.rng.random() < .5 else i

    def item(self, i):
        return self.items[i - 1] if i > 0 else -self.items[-i - 1]

    def c(self, x):
        if self.keyed == "abs":
            return 0 if not isinstance(x, int) else self.code(x) if x > 0 else -self.code(-x)
        return self.code(id(x)) if self.keyed == "id" else self.code(x)

    def do(self, r):
        S, o = self.S, r[0]
        if o != "get":
            r = (o,) + tuple(self.name(i) for i in r[1:])
        if o == "append":
            _, exc = attempt(S.append, self.item(r[1]))
            e = {"op": "append", "y": r[1], "exc": exc}
        elif o in ("after", "before"):
            f = S.insertAfter if o == "after" else S.insertBefore
            _, exc = attempt(f, self.item(r[1]), self.item(r[2]))
            e = {"op": o, "x": r[1], "y": r[2], "exc": exc}
        elif o == "remove":
            _, exc = attempt(S.remove, self.item(r[1]))
            e = {"op": o, "x": r[1], "exc": exc}
        elif o == "iter":
            v, exc = attempt(lambda: [self.c(x) for x in take(iter(S), self.n + 3)])
            e = {"op": "iter", "r": v} if not exc else {"op": "raised", "exc": exc}
        elif o == "shown":       # the numbers in the printed form
            v, exc = attempt(lambda: [int(x) for x in re.findall(r"-?\d+", repr(S))])
            e = {"op": "shown", "r": [self.c(x) for x in v]} if not exc else {"op": "raised", "exc": exc}
        elif o == "len":
            v, exc = attempt(len, S)
            e = {"op": "len", "r": v} if not exc else {"op": "raised", "exc": exc}
        elif o == "get":
            v, exc = attempt(lambda: S[r[1]])
            e = {"op": "get", "i": r[1], "r": 0 if exc else self.c(v), "exc": exc}
        elif o in ("succ", "pred"):
            v, exc = attempt(S.successor if o == "succ" else S.predecessor, self.item(r[1]))
            e = {"op": o, "x": r[1], "r": 0 if exc else self.c(v), "exc": exc}
        elif o == "cmp":
            v, exc = attempt(S.cmp, self.item(r[1]), self.item(r[2]))
            e = {"op": o, "x": r[1], "y": r[2], "r": 0 if exc else int(v), "exc": exc}
        self.ops.append(e)
        return e

    def present(self):
        e = self.do(("iter",))
        return [abs(i) for i in e.get("r", []) if i]

    def observe(self, cmps=None):
        p = self.present()
        self.do(("len",))
        if self.kind == "plain" and all(type(x) is int for x in self.items):
            self.do(("shown",))
        n = self.n
        if self.kind == "plain":
            for i in range(len(p) + 2):
                self.do(("get", i))
            for i in range(1, n + 1):
                self.do(("succ", i))
                self.do(("pred", i))
        else:
            for i in p:
                for j in p if cmps is None else self.rng.sample(p, min(cmps, len(p))):
                    self.do(("cmp", i, j))

    def result(self):
        return {"init": self.init, "ops": self.ops}


def replay(kind, h, n, style, keyed, rng, each):
    R = Run(kind, n, style, [], keyed, rng)
    if R.S is not None:
        for r in h:
            if "a" in r:
                R.do(("append", r["a"]))
            elif "f" in r:
                R.do(("after",) + tuple(r["f"]))
            elif "b" in r:
                R.do(("before",) + tuple(r["b"]))
            else:
                R.do(("remove", r["r"]))
            if each:
                R.observe()
        R.observe()
    return R.result()


def wild(kind, n, style, keyed, rng, steps, illegal=.12):
    """Random edits, some of them illegal, with observations in between."""
    init = rng.sample(range(1, n + 1), rng.randint(0, n))
    R = Run(kind, n, style, init, keyed, rng)
    if R.S is None:
        return R.result()
    for _ in range(steps):
        p = R.present()
        absent = [i for i in range(1, n + 1) if i not in p]
        any_ = list(range(1, n + 1))
        if rng.random() < illegal:
            o = rng.choice(["append", "after", "before", "remove"])
            R.do((o,) + tuple(rng.choice(any_) for _ in range(1 if o in ("append", "remove") else 2)))
        elif p and (not absent or rng.random() < .35):
            R.do(("remove", rng.choice([p[0], p[-1], rng.choice(p)])))
        elif absent:
            o = rng.choice(["append", "after", "before"]) if p else "append"
            y = rng.choice(absent)
            R.do((o, y) if o == "append" else (o, rng.choice([p[0], p[-1], rng.choice(p)]), y))
        if rng.random() < .4:
            R.observe(cmps=3)
    R.observe()
    return R.result()


def dense(kind, n, style, keyed, rng, how):
    """Many insertions at one place, so that positions have to be relabelled."""
    k = rng.randint(1, 4)
    R = Run(kind, n, style, list(range(1, k + 1)), keyed, rng)
    if R.S is None:
        return R.result()
    fixed = rng.randint(1, k)
    last = fixed
    near = list(range(1, k + 1))
    for y in range(k + 1, n + 1):
        if how == "after":
            R.do(("after", fixed, y))
        elif how == "before":
            R.do(("before", fixed, y))
        elif how == "front":
            R.do(("before", last, y)) if last != fixed else R.do(("before", 1, y))
        elif how == "end":
            R.do(("append", y))
        elif how == "zig":
            R.do(("after" if y % 2 else "before", last, y))
        else:
            R.do((rng.choice(["after", "before"]), rng.choice(near[-6:]), y))
        last = y
        near.append(y)
        for _ in range(CMP_PAIRS):
            a = rng.choice(near[-5:] + near[:2] + [fixed])
            R.do(("cmp", a, rng.choice(near)))
        if how == "mix" and rng.random() < .15:
            z = rng.choice(near)
            if z != fixed and len(near) > 8:
                R.do(("remove", z))
                near.remove(z)
                last = near[-1]
    R.do(("iter",))
    R.observe(cmps=4)
    return R.result()


def cases_for(kinds, tier, rng):
    import random
    big = tier == "thorough"
    for k, h in enumerate(generated("ll")):
        for kind in kinds:
            style = STYLES[k % len(STYLES)]
            keyed = (None, None, "abs", None, "id")[k % 5]
            yield "gen-%s-%d" % (kind, k), (lambda h=h, kind=kind, style=style, keyed=keyed, k=k:
                                            replay(kind, h, 3, style, keyed, random.Random(k), k % 4 == 0))
    for k in range(1200 if big else 300):
        kind = kinds[k % len(kinds)]
        a = (kind, rng.choice([1, 2, 3, 5, 8]), rng.choice(STYLES), rng.choice([None, None, "abs", "id"]))
        s, steps = rng.getrandbits(32), rng.randint(1, 25)
        yield "wild-%s-%d" % (kind, k), lambda a=a, s=s, steps=steps: wild(*a, random.Random(s), steps)
    if "plain" in kinds:
        return
    hows = ["after", "before", "front", "end", "zig", "mix"]
    for k in range(144 if big else 48):
        kind = kinds[k % len(kinds)]
        how = hows[k // 2 % len(hows)]
        n = rng.choice([70, 100, 160] if not big else [70, 160, 300])
        a = (kind, n, rng.choice(["int", "str", "opaque"]), rng.choice([None, None, "abs", "id"]))
        s = rng.getrandbits(32)
        yield "dense-%s-%s-%d" % (kind, how, k), lambda a=a, s=s, how=how: dense(*a, random.Random(s), how)

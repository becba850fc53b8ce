from common import *


def make(kind):
    import pads.integer_heap as ih
    if kind == "bv":
        return ih.BitVectorHeap()
    if kind == "lin":
        return ih.LinearHeap()
    if kind.startswith("flat"):
        return ih.FlatHeap(int(kind[4:]))
    return ih.IntegerHeap(int(kind[3:]))


def bits(kind):
    if kind in ("bv", "lin"):
        return 8
    return 1 << int(kind[4:] if kind.startswith("flat") else kind[3:])


def history(kind, values, reqs):
    """values: sorted distinct ints; reqs refer to them by 1-based rank."""
    rank = {v: i + 1 for i, v in enumerate(values)}
    H = make(kind)
    ops = []
    for r in reqs:
        try:
            if r[0] == "a":
                _, e = attempt(H.add, values[r[1] - 1])
                ops.append({"op": "add", "x": r[1], "exc": e})
            elif r[0] == "r":
                _, e = attempt(H.remove, values[r[1] - 1])
                ops.append({"op": "remove", "x": r[1], "exc": e})
            elif r[0] == "m":
                v, e = attempt(H.min)
                ops.append({"op": "min", "exc": e, "r": rank.get(v, 0) if e == "" else 0})
            elif r[0] == "x":
                _, e = attempt(H.add, r[1])
                ops.append({"op": "addbad", "exc": e})
            else:
                ops.append({"op": "bool", "r": bool(H)})
        except Exception as e:
            ops.append(raised(e))
            break
    return ops


def drain(n):
    return [("m",), ("b",)]


KINDS = ["bv", "lin", "flat1", "flat2", "flat3", "flat4", "flat5", "flat6",
         "int0", "int1", "int2", "int3", "int4", "int5", "int6", "flat7", "int7", "flat9", "int8"]


def drained(kind, values, reqs):
    """History followed by repeated min/remove until empty, observing each step."""
    ops = history(kind, values, reqs)
    if ops and ops[-1]["op"] == "raised":
        return ops
    # replay once more, then drain through the public interface
    H = make(kind)
    rank = {v: i + 1 for i, v in enumerate(values)}
    for r in reqs:
        if r[0] == "a":
            attempt(H.add, values[r[1] - 1])
        elif r[0] == "r":
            attempt(H.remove, values[r[1] - 1])
    for _ in range(len(values) + 1):
        v, e = attempt(H.min)
        ops.append({"op": "min", "exc": e, "r": rank.get(v, 0) if e == "" else 0})
        ops.append({"op": "bool", "r": bool(H)})
        if e != "" or v not in rank:
            break
        _, e = attempt(H.remove, v)
        ops.append({"op": "remove", "x": rank[v], "exc": e})
    return ops


def logs():
    import pads.integer_heap as ih
    ops = []
    for i in [0, 5, 3, 63, 1, 64, 200, 2, 255] + list(range(0, 70)):
        v, e = attempt(ih.log2, 1 << i)
        ops.append({"op": "log", "x": i, "r": v if e == "" else -1, "exc": e})
    return ops


def cases(tier, rng):
    big = tier == "thorough"
    yield "logs", logs
    for k, h in enumerate(generated("fh")):
        reqs = []
        for r in h:
            reqs += [("a", r["a"] + 1) if "a" in r else ("r", r["r"] + 1), ("b",), ("m",)]
        kind = ("flat1", "bv", "lin", "int1")[k % 4]
        yield "gen-%d-%s" % (k, kind), lambda kind=kind, reqs=reqs: drained(kind, [0, 1, 2, 3], reqs)
    for k in range(3800 if big else 1140):
        kind = KINDS[k % len(KINDS)]
        b = bits(kind)
        top = (1 << b) - 1
        n = rng.randint(1, min(14, top + 1))
        mode = rng.random()
        vals = {0, top} if (mode < .3 and n > 1) else set()
        base = rng.randint(0, top)
        while len(vals) < n:
            c = rng.random()
            if c < .4:
                v = rng.randint(0, top)
            elif c < .7:      # neighbours sharing high halves
                v = base ^ rng.randint(0, min(top, 15))
            elif c < .9:      # same low half, different high halves
                v = (base & ((1 << max(1, b // 2)) - 1)) | (rng.randint(0, top) >> (b // 2) << (b // 2))
            else:
                v = 1 << rng.randint(0, b - 1)
            vals.add(min(top, v))
        vals = sorted(vals)
        reqs = []
        for _ in range(rng.randint(2, 40)):
            c = rng.random()
            x = rng.randint(1, n)
            reqs.append(("a", x) if c < .5 else ("r", x) if c < .75 else ("m",) if c < .95 else ("b",))
            if rng.random() < .03 and kind.startswith(("flat", "int4", "int5", "int6", "int7", "int8")):
                reqs.append(("x", rng.choice([-1, top + 1, top * 2 + 5])))
        yield "rnd-%d-%s" % (k, kind), lambda kind=kind, vals=vals, reqs=reqs: drained(kind, vals, reqs)
    for k in range(24 if big else 8):      # large heaps
        kind = rng.choice(["flat4", "flat5", "flat6", "int4", "bv", "int3", "flat7", "int8"])
        top = (1 << bits(kind)) - 1
        vals = sorted({rng.randint(0, top) for _ in range(150)})
        n = len(vals)
        reqs = [("a", x) for x in rng.sample(range(1, n + 1), n)] + \
               [("r", x) for x in rng.sample(range(1, n + 1), n // 2)]
        yield "bulk-%d-%s" % (k, kind), lambda kind=kind, vals=vals, reqs=reqs: drained(kind, vals, reqs)

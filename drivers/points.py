from graphlib import *


def session(script):
    from pads.integerpoints import IntegerPointsByDistance
    streams, ops = [], []
    try:
        for s in script:
            if s[0] == "open":
                streams.append(iter(IntegerPointsByDistance()))
                ops.append({"op": "open"})
            else:
                r = []
                for _ in range(s[2]):
                    try:
                        r.append(list(next(streams[s[1] - 1])))
                    except StopIteration:
                        break
                ops.append({"op": "take", "i": s[1], "n": s[2], "r": r, "cap": 200000})
    except Exception as e:
        ops.append(raised(e))
    return {"n": 0, "ops": ops}


def cases(tier, rng):
    big = tier == "thorough"
    yield "steps", lambda: session([("open",)] + [("take", 1, 1)] * 400)
    yield "batches", lambda: session([("open",)] + [("take", 1, 50)] * 40)
    yield "long", lambda: session([("open",)] + [("take", 1, 5000)] * (60 if big else 22))
    for k in range(40 if big else 10):
        script, n = [], 0
        for _ in range(rng.randint(5, 30)):
            if n == 0 or (n < 4 and rng.random() < .25):
                n += 1
                script.append(("open",))
            else:
                script.append(("take", rng.randint(1, n), rng.choice([0, 1, 2, 7, 40])))
        yield "mixed-%d" % k, lambda s=script: session(s)

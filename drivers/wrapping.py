from graphlib import *

STD = {"target": 76, "longlast": False, "over": 1000, "nline": 1000, "oneword": 25, "hyphen": 25}


PLAIN = {"hyphen": 1, "space": 1, "wide": 1, "other": 1}
HOWS = [dict(PLAIN, wide=2), {"hyphen": 3, "space": 1, "wide": 2, "other": 2}, {"hyphen": 1, "space": 2, "wide": 4, "other": 3},
        {"hyphen": 0, "space": 1, "wide": 1, "other": 1}, {"hyphen": 2, "space": 0, "wide": 3, "other": 1}, {"hyphen": 5, "space": 3, "wide": 2, "other": 1}]


def measuring(h):
    return lambda s: sum(h["hyphen"] if c == "-" else h["space"] if c == " " else h["wide"] if "A" <= c <= "Z" or ord(c) > 255 else h["other"] for c in s)


def setting(text, o=None, french=False, how=PLAIN, defaults=False):
    ops = []
    try:
        from pads.wrap import wrap
        kw = {}
        if not defaults:
            kw = dict(target=o["target"], longlast=o["longlast"], frenchspacing=french, overpenalty=o["over"],
                      nlinepenalty=o["nline"], onewordpenalty=o["oneword"], hyphenpenalty=o["hyphen"])
            if how != PLAIN:
                kw["measure"] = measuring(how)
        r = list(wrap(text, **kw))
        ops.append({"op": "wrap", "text": [ord(c) for c in text], "o": o or STD, "french": french, "how": how, "r": [[ord(c) for c in l] for l in r]})
    except Exception as e:
        ops.append(raised(e))
    return {"n": 0, "ops": ops}


def words(rng, n, longest):
    out = []
    for _ in range(n):
        k = rng.randint(1, longest)
        w = "".join(rng.choice("abcdefghé一") for _ in range(k))
        c = rng.random()
        if c < .08:
            w += "-"
        elif c < .12:
            w = rng.choice(["-", "--", "-" + w, "---"])
        elif c < .3:
            w = w + "-" + "".join(rng.choice("xyz") for _ in range(rng.randint(1, longest)))
            if rng.random() < .3:
                w += "-" + rng.choice(["q", "qq", "", "-r"])
        elif c < .42:
            w += "."
        elif c < .48:
            w = rng.choice(["A.", "B.", "a.", ".", "AB.", "A", "A.B.", "X-.", "Q-R."])
        elif c < .55:
            w = w.capitalize() if w[0] < "z" else w
        out.append(w)
    return out


def text(rng, ws):
    s = rng.choice(["", "", " ", "\n"])
    for k, w in enumerate(ws):
        s += w + rng.choice([" ", " ", " ", "  ", "\n", "\t", " \n  "])
    return s if rng.random() < .5 else s.strip()


def cases(tier, rng):
    big = tier == "thorough"
    gen = generated("wrap")
    if not big:
        gen = [g for g in gen if rng.random() < .15]
    for k, g in enumerate(gen):
        s = ""
        for n, gap in g["p"]:
            s += "abcdefg"[:n - 1] + ("-" if gap == 0 else ("z " if gap == 1 else ". "))
        # merge short ones: one trace per text and option set
        yield "small-%d" % k, lambda s=s, o=g["o"], h=g["how"]: setting(s, o, False, h)
    for k, s in enumerate(["", " ", "\n\t ", "a", "a-", "-", "--", "a- b", "a -- b", "x" * 100, "A.", "a.", "x-" * 30, "a-b-", "one- two- three- four"]):
        yield "fixed-%d" % k, lambda s=s: setting(s, defaults=True)
        for t in [1, 3, 5, 9]:
            yield "fixed-%d-%d" % (k, t), lambda s=s, t=t: setting(s, dict(STD, target=t))
    for k in range(600 if big else 150):
        n = rng.choice([2, 4, 7, 12, 20, 30])
        s = text(rng, words(rng, n, rng.choice([3, 6, 12])))
        o = {"target": rng.choice([4, 7, 10, 15, 20, 25, 40, 76]), "longlast": rng.random() < .4, "over": rng.choice([0, 1, 10, 1000]),
             "nline": rng.choice([0, 5, 100, 1000]), "oneword": rng.choice([0, 25, 60]), "hyphen": rng.choice([0, 25, 50, 1000])}
        yield "random-%d" % k, lambda s=s, o=o, f=rng.random() < .4, h=rng.choice([PLAIN] * 5 + HOWS): setting(s, o, f, h)
    for k in range(60 if big else 15):
        s = text(rng, words(rng, rng.randint(10, 60), 9))
        yield "default-%d" % k, lambda s=s: setting(s, defaults=True)
    for k in range(20 if big else 6):
        s = text(rng, words(rng, rng.choice([90, 140, 200]), rng.choice([4, 9])))
        o = {"target": rng.choice([12, 30, 76, 150]), "longlast": k % 2 == 0, "over": rng.choice([1, 10, 1000]),
             "nline": rng.choice([0, 100, 1000]), "oneword": 25, "hyphen": rng.choice([0, 25, 50])}
        yield "large-%d" % k, lambda s=s, o=o, f=rng.random() < .4: setting(s, o, f, PLAIN)

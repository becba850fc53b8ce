"""Circle packings, recorded in fixed point as long numbers (digits to base 10000)."""
import math
from pads import circle_pack as cp
from graphlib import *


def long(x):
    s, a, out = (1 if x >= 0 else -1), abs(x), []
    while a:
        out.append(s * (a % 10000))
        a //= 10000
    return out or [0]


def fixed(x, unit):
    return long(round(x * unit))


def record(p, keys, unit):
    out = []
    for k in keys:
        v = p.get(k) if isinstance(p, dict) else None
        try:
            z, r = v
            z = complex(z)
            out.append({"ok": bool(all(math.isfinite(t) for t in (z.real, z.imag, r))), "x": fixed(z.real, unit), "y": fixed(z.imag, unit), "r": fixed(r, unit)})
        except (TypeError, ValueError, OverflowError):
            out.append({"ok": False, "x": [0], "y": [0], "r": [0]})
    return out


def probe(flower):
    """The internal circles to be judged: all, or some of very many."""
    inner = [i + 1 for i, f in enumerate(flower) if f]
    return inner if len(inner) <= 30 else inner[:7] + inner[7:-7:len(inner) // 10] + inner[-7:]


def session(flower, radii, style, rng, more=True, start=None):
    n = len(flower)
    name = names(n, style)
    if None in name:        # stands for no circle
        name = names(n, "int")
    keys = name
    internal = {name[i]: [name[j - 1] for j in f] for i, f in enumerate(flower) if f}
    external = {name[i]: radii[i] for i, f in enumerate(flower) if not f}
    if start is not None:
        # the first circle in the mapping, and in its cycle, is where placement begins
        ks = list(internal)
        rng.shuffle(ks)
        internal = {k: (lambda c, i: c[i:] + c[:i])(internal[k], rng.randrange(len(internal[k]))) for k in ks}
    before = {k: list(c) for k, c in internal.items()}, dict(external)
    unit = 1e9
    tr = {"n": n, "flower": flower, "who": probe(flower), "ext": [fixed(r, unit) for r in radii], "ops": []}
    ops = tr["ops"]
    try:
        p = cp.circle_pack(internal, external)
    except Exception as e:
        ops.append(raised(e))
        return tr
    if (internal, external) != before:
        ops.append({"op": "broken", "what": "arguments changed"})
        return tr
    ops.append({"op": "pack", "pack": record(p, keys, unit)})
    if not more:
        return tr
    held = dict(p)

    def step(op, f, again=None, packs=(), **e):
        try:
            q = f()
        except Exception as x:
            ops.append(raised(x))
            return None
        if p != held:
            ops.append({"op": "broken", "what": "arguments changed"})
            return None
        e.update(op=op, pack=record(q, keys, e.pop("unit")))
        ops.append(e)
        return q
    k = rng.randrange(n)
    target = rng.choice([1.0, 2.5, 0.25])
    step("normalize", lambda: cp.NormalizePacking(p, name[k], target), k=k + 1, target=fixed(target, unit), unit=unit)
    step("normalize", lambda: cp.NormalizePacking(p), k=0, target=fixed(1.0, unit), unit=unit)
    step("normalize", lambda: cp.NormalizePacking(p, target=target), k=0, target=fixed(target, unit), unit=unit)
    step("normalize", lambda: cp.NormalizePacking(p, name[k]), k=k + 1, target=fixed(1.0, unit), unit=unit)
    # about a point in a circle, its centre, and a point outside all circles
    for j in range(3):
        i = rng.randrange(n)
        z, r = p[name[i]]
        inside = i + 1
        if j == 0:
            c = z + r * rng.uniform(.1, .6) * (1j ** rng.randrange(4)) * complex(math.cos(i), math.sin(i))
        elif j == 1:
            c = z
        else:
            c, inside = complex(max(abs(z) + r for z, r in p.values()) * 1.25, 0) * complex(math.cos(i), math.sin(i)), 0
        # only where no other circle reaches the point
        if any(abs(c - p[x][0]) < 1.02 * p[x][1] for x in name if x != name[inside - 1] or not inside):
            continue
        least = min(abs(p[x][1] / (abs(p[x][0] - c) ** 2 - p[x][1] ** 2)) for x in name)
        u = 10.0 ** (9 - min(0, math.floor(math.log10(least))))
        step("invert", lambda: cp.InvertPacking(p, c), inside=inside, c={"x": fixed(c.real, unit), "y": fixed(c.imag, unit)}, uu=long(int(unit) * int(u)), unit=u)
    i = rng.randrange(n)
    z, r = p[name[i]]
    if not any(abs(z - p[x][0]) < p[x][1] + r - 1e-6 * r for x in name if x != name[i]):
        few = rng.sample([x for x in range(n) if x != i], max(1, n // 2)) if rng.random() < .5 else []
        others = []
        for _ in range(6):
            c = z + r * rng.uniform(0, .95) * complex(*[(math.cos(a), math.sin(a)) for a in [rng.uniform(0, 6.28)]][0])
            inv = {x: (1 / (abs(p[x][0] - c) ** 2 - p[x][1] ** 2)) * p[x][1] for x in name}
            among = few or [x for x in range(n) if x != i]
            others.append([fixed(min(abs(inv[name[x]]) for x in among), 1e12), fixed(abs(inv[name[i]]), 1e12)])
        arg = [name[x] for x in few]
        if few:
            step("around", lambda: cp.InvertAround(p, name[i], arg), k=i + 1, among=[x + 1 for x in few], others=others, unit=1e9)
        else:
            step("around", lambda: cp.InvertAround(p, name[i]), k=i + 1, among=[x + 1 for x in range(n) if x != i], others=others, unit=1e9)
    return tr


def refused(kind):
    internal, external = {0: [1, 2, 3]}, {1: 1.0, 2: 1.0, 3: 1.0}
    if kind == "zero":
        external[2] = 0
    elif kind == "negative":
        external[3] = -1.5
    else:
        external[0] = 1.0
    tr = {"n": 4, "who": [1], "flower": [[2, 3, 4], [], [], []], "ext": [[0]] * 4, "ops": []}
    try:
        cp.circle_pack(internal, external)
        r = False
    except Exception:
        r = True
    tr["ops"].append({"op": "refused", "r": r})
    return tr


def strip(m):
    """A row of m internal circles between two rows of external ones."""
    # internal i: 0..m-1; top t_0..t_m, bottom b_0..b_m, ends l, r
    top = lambda i: m + i
    bot = lambda i: m + (m + 1) + i
    left, right = m + 2 * (m + 1), m + 2 * (m + 1) + 1
    fl = []
    for i in range(m):
        a = i - 1 if i else left
        b = i + 1 if i < m - 1 else right
        fl.append([x + 1 for x in (a, top(i), top(i + 1), b, bot(i + 1), bot(i))])
    return fl + [[] for _ in range(2 * (m + 1) + 2)]


def grid(m, rng=None):
    """Internal circles of a triangular grid of side m."""
    P = {(i, j) for i in range(m) for j in range(m)}
    ring = lambda i, j: [(i + 1, j), (i, j + 1), (i - 1, j + 1), (i - 1, j), (i, j - 1), (i + 1, j - 1)]
    allv = sorted(P | {q for p in P for q in ring(*p)}, key=lambda q: (q not in P, q))
    num = {q: k + 1 for k, q in enumerate(allv)}
    return [[num[x] for x in ring(*q)] if q in P else [] for q in allv]


def grow(rng, rim, splits, swaps):
    """A random disk, by the same steps as the model."""
    T = {(0, i, 1 + i % rim) for i in range(1, rim + 1)}
    n = rim + 1

    def third(a, b):
        for t in T:
            for i in range(3):
                if t[i] == a and t[(i + 1) % 3] == b:
                    return t, t[(i + 2) % 3]
        return None, None

    def links():
        return {frozenset((t[i], t[(i + 1) % 3])) for t in T for i in range(3)}
    rimset = set(range(1, rim + 1))
    todo = ["split"] * splits + ["swap"] * swaps
    rng.shuffle(todo)
    for what in todo:
        t = rng.choice(sorted(T))
        if what == "split":
            a, b, c = t
            T.discard(t)
            T |= {(a, b, n), (b, c, n), (c, a, n)}
            n += 1
        else:
            a, b, c = t
            u, d = third(b, a)
            L = links()
            deg = lambda v: sum(v in e for e in L)
            if u is None or frozenset((c, d)) in L or (c in rimset and d in rimset) or any(v not in rimset and deg(v) <= 3 for v in (a, b)):
                continue
            T -= {t, u}
            T |= {(c, d, b), (d, c, a)}
    fl = []
    for v in range(n):
        if v in rimset:
            fl.append([])
            continue
        nx = {t[(i + 1) % 3]: t[(i + 2) % 3] for t in T for i in range(3) if t[i] == v}
        w = min(nx)
        f = [w + 1]
        while nx[w] + 1 != f[0]:
            w = nx[w]
            f.append(w + 1)
        fl.append(f)
    return fl


def joined(fl):
    inner = {i for i, f in enumerate(fl) if f}
    seen, todo = set(), [min(inner)]
    while todo:
        v = todo.pop()
        if v not in seen:
            seen.add(v)
            todo += [w - 1 for w in fl[v] if w - 1 in inner]
    return seen == inner


def radii_for(fl, rng, how):
    if how == 0:
        return [1.0 if not f else 0.0 for f in fl]
    if how == 1:
        return [float(rng.randint(1, 4)) if not f else 0.0 for f in fl]
    return [round(math.exp(rng.uniform(-1.2, 1.2)), 6) if not f else 0.0 for f in fl]


def cases(tier, rng):
    big = tier == "thorough"
    gen = sorted(generated("packs"), key=lambda d: (d["n"], d["flower"]))
    pick = gen if big else [d for i, d in enumerate(gen) if d["n"] < 6 or i % 12 == rng.randrange(12)]
    for i, d in enumerate(pick):
        s = rng.randrange(1 << 30)
        yield "disk-%d" % i, lambda d=d, s=s: (lambda r: session(d["flower"], radii_for(d["flower"], r, r.randrange(3)), style_of(r.randrange(60)), r, start=True))(__import__("random").Random(s))
    for kind in ("zero", "negative", "shared"):
        yield "refused-" + kind, lambda kind=kind: refused(kind)
    for i in range(60 if big else 25):
        fl = grow(rng, rng.randint(3, 9), rng.randint(0, 9), rng.randint(0, 12))
        if joined(fl):
            s = rng.randrange(1 << 30)
            yield "grown-%d" % i, lambda fl=fl, s=s: (lambda r: session(fl, radii_for(fl, r, r.randrange(3)), style_of(r.randrange(60)), r, start=True))(__import__("random").Random(s))
    for m in (2, 3, 5):
        s = rng.randrange(1 << 30)
        yield "grid-%d" % m, lambda m=m, s=s: (lambda r: session(grid(m), radii_for(grid(m), r, r.randrange(3)), "int", r, more=m < 4))(__import__("random").Random(s))
    for m in (6, 20, 1100):
        s = rng.randrange(1 << 30)
        yield "strip-%d" % m, lambda m=m, s=s: (lambda r: session(strip(m), radii_for(strip(m), r, 1 if m < 100 else 0), "int", r, more=m < 10))(__import__("random").Random(s))
    for m in (3, 5, 17):
        fl = [[i + 2 for i in range(m)]] + [[] for _ in range(m)]
        s = rng.randrange(1 << 30)
        yield "wheel-%d" % m, lambda fl=fl, s=s: (lambda r: session(fl, radii_for(fl, r, 2), "int", r))(__import__("random").Random(s))

from graphlib import *


class Row(list):
    """A caller's own adjacency list type."""


class Heap:
    """Graphs kept side by side; after every call all of them are read back."""

    def __init__(self, n, arcs, seed):
        self.rng = random.Random(seed)
        self.inst = Inst(n, arcs, style_of(seed), set if seed % 3 == 0 else container_of(seed // 7), seed)
        self.n, self.code, self.items = n, self.inst.code, self.inst.items
        self.graphs = [self.inst.G]
        self.ops = []
        self.rows = self.read()[0]

    def read(self):
        return [[[self.code(v), [self.code(w) for w in G[v]]] for v in G] for G in self.graphs]

    def log(self, op, **kw):
        kw["op"] = op
        kw["heap"] = self.read()
        self.ops.append(kw)

    def some(self, vs):
        vs = [self.items[v - 1] for v in vs]
        self.rng.shuffle(vs)
        return self.rng.choice([set, list, tuple, frozenset, dict.fromkeys, lambda x: dict.fromkeys(x, {None})])(vs)

    def do(self, e):
        from pads import graphs as M
        op = e["op"]
        if op in ("copy", "induced"):
            t = self.rng.choice([None, set, list, tuple, frozenset, Row, lambda it: {w: 1 for w in it}])
            args = [self.graphs[e["i"] - 1]]
            if op == "induced":
                args.insert(0, self.some(e["set"]))
            H = (M.copy_graph if op == "copy" else M.induced_subgraph)(*args, *([] if t is None else [t]))
            want = set if t is None else t if isinstance(t, type) else dict
            kind = all(type(H[v]) is want for v in H)
            self.graphs.append(H)
            self.log(op, i=e["i"], set=e.get("set", []), kind=kind)
        elif op == "union":
            H = M.union(*[self.graphs[i - 1] for i in e["is"]])
            self.graphs.append(H)
            self.log(op, **{"is": e["is"], "kind": True})
        elif op == "poke":
            G = self.graphs[e["i"] - 1]
            x, y = self.items[e["x"] - 1], self.items[e["y"] - 1]
            row = G[x]
            if isinstance(row, (tuple, frozenset)):          # replaced, not changed in place
                row = [w for w in row if w != y] + ([y] if e["add"] else [])
                G[x] = type(G[x])(row)
            elif e["add"]:
                row.add(y) if isinstance(row, set) else row.append(y) if isinstance(row, list) else row.update({y: 1})
            else:
                row.remove(y) if isinstance(row, (set, list)) else row.pop(y)
            self.log(op, i=e["i"], x=e["x"], y=e["y"], add=e["add"])

    def ask(self, sets):
        from pads import graphs as M
        for i, G in enumerate(self.graphs):
            # the tests below need every neighbour to be a vertex
            if not all(w in G for v in G for w in G[v]):
                continue
            self.log("simple", i=i + 1, r=M.is_undirected(G))
            if G:
                self.log("maxdeg", i=i + 1, r=M.max_degree(G))
                self.log("mindeg", i=i + 1, r=M.min_degree(G))
            for s in sets:
                self.log("free", i=i + 1, set=s, r=M.is_independent_set(self.some(s), G))


def heap(n, arcs, hist, seed, sets):
    h = Heap(n, arcs, seed)
    try:
        for e in hist:
            h.do(e)
        h.ask(sets)
    except Exception as e:
        h.ops.append(raised(e))
    for o in h.ops:
        o.setdefault("heap", [])
    return {"t": "heap", "rows": h.rows, "ops": h.ops}


def family(f):
    from pads import graph_examples as M
    ops = []
    try:
        k = f["kind"]
        if k == "petersen":
            G = M.GeneralizedPetersenGraph(f["n"], f["k"])
            items = [(i, b) for i in range(f["n"]) for b in (False, True)]
        elif k == "coxeter":
            G = M.GeneralizedCoxeterGraph(f["n"], f["a"], f["b"])
            items = [(i, j) for i in range(f["n"]) for j in range(4)]
        elif k == "cycles":
            G = M.CubeConnectedCycles(f["n"])
            items = [(x, y) for x in range(1 << f["n"]) for y in range(f["n"])]
        elif k == "lcf":
            G = M.LCFNotation(f["l"], f["n"])
            items = list(range(len(f["l"]) * f["n"]))
        else:
            G = getattr(M, f["attr"])
            items = list(G)
        c = Coder(items)
        ops.append({"op": "rows", "r": [[c(v), [c(w) for w in G[v]]] for v in G]})
    except Exception as e:
        ops.append(raised(e))
    return {"t": "family", "f": f, "ops": ops}


NAMED = {"petersen": "PetersenGraph", "desargues": "DesarguesGraph", "coxeter": "CoxeterGraph", "mcgee": "McGeeGraph",
         "dyck": "DyckGraph", "pappus": "PappusGraph", "tutte": "TutteCoxeterGraph", "gray": "GrayGraph"}


def fair(L, n):
    m = n * len(L)
    ch = lambda i: L[i % len(L)]
    return m >= 4 and all(ch(i) % m not in (0, 1, m - 1) and (i + ch(i) + ch((i + ch(i)) % m)) % m == i for i in range(m))


def cases(tier, rng):
    big = tier == "thorough"
    for k, a in NAMED.items():
        yield "named-" + k, lambda k=k, a=a: family({"kind": "named", "name": k, "attr": a})
    for n in range(3, 40 if big else 20):
        for k in range(1, (n + 1) // 2):
            if 2 * k < n:
                yield "gp-%d-%d" % (n, k), lambda n=n, k=k: family({"kind": "petersen", "n": n, "k": k})
    for n in range(3, 16 if big else 12):
        for a in range(1, n):
            for b in range(1, n):
                if 2 * a < n and 2 * b < n:
                    yield "gc-%d-%d-%d" % (n, a, b), lambda f={"kind": "coxeter", "n": n, "a": a, "b": b}: family(f)
    for n in range(3, 8 if big else 7):
        yield "ccc-%d" % n, lambda n=n: family({"kind": "cycles", "n": n})
    for m in (1, 2, 3, 4):
        tries = 0
        while tries < 60:
            L = [rng.randint(-9, 9) for _ in range(m)] if m < 3 else [rng.choice([-7, 7, -5, 5, 3, -3, 9, -9, 11]) for _ in range(m)]
            n = rng.randint(1, 12)
            tries += 1
            if m > 2 and rng.random() < .5:
                L = L[:m // 2] + [-x for x in L[:m // 2]][::-1]
            if fair(L, n):
                yield "lcf-%s-%d" % (L, n), lambda f={"kind": "lcf", "l": L, "n": n}: family(f)
    for k, g in enumerate(generated("heap")):
        if big or k % 3 == 0:
            yield "h-%d" % k, lambda g=g, k=k: heap(len(g["adj"]), arcs_of(g["adj"]), g["hist"], k, [[], [1], [2], [1, 2]])
    for b in range(512):
        arcs = [a for i, a in enumerate([(v, w) for v in range(3) for w in range(3)]) if b >> i & 1]
        sets = [[v + 1 for v in range(3) if x >> v & 1] for x in range(8)]
        yield "three-%d" % b, lambda arcs=arcs, b=b, sets=sets: heap(3, arcs, [], b, sets)
    for i in range(1500 if big else 400):
        n = rng.randint(0, 9)
        c = rng.random()
        if not n:
            arcs = []
        elif c < .4:
            arcs = directed(rng, n)
        else:
            e = undirected(rng, n)
            arcs = e + [x[::-1] for x in e]
            if c < .7 and arcs:
                if rng.random() < .5:
                    arcs.pop(rng.randrange(len(arcs)))
                else:
                    arcs.append((rng.randrange(n),) * 2)
                    arcs = list(dict.fromkeys(arcs))
        hist, heaps = [], [(set(range(1, n + 1)), {(a + 1, b + 1) for a, b in arcs})]
        for _ in range(rng.randint(0, 6)):
            op = rng.choice(["copy", "induced", "union", "poke", "poke"])
            j = rng.randrange(len(heaps))
            V, A = heaps[j]
            if op == "copy":
                hist.append({"op": "copy", "i": j + 1})
                heaps.append((set(V), set(A)))
            elif op == "induced":
                s = [v for v in range(1, n + 1) if rng.random() < .6]
                hist.append({"op": "induced", "i": j + 1, "set": s})
                heaps.append((V & set(s), {p for p in A if p[0] in s and p[1] in s}))
            elif op == "union":
                js = [rng.randrange(len(heaps)) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
                hist.append({"op": "union", "is": [x + 1 for x in js]})
                heaps.append((set().union(*[heaps[x][0] for x in js]), set().union(*[heaps[x][1] for x in js])))
            elif V:
                x, y = rng.choice(sorted(V)), rng.choice(sorted(V))
                add = (x, y) not in A
                hist.append({"op": "poke", "i": j + 1, "x": x, "y": y, "add": add})
                A.symmetric_difference_update({(x, y)})
        sets = [sorted(rng.sample(range(1, n + 1), rng.randint(0, n))) for _ in range(3)]
        yield "rnd-%d" % i, lambda a=(n, arcs, hist), s=sets, i=i: heap(*a, i, s)

from graphlib import *
import io
import shutil
import tempfile


def vname(v):
    return ("i%d" % v) if isinstance(v, int) else "s" + v if isinstance(v, str) else "?"


def call(doc, lines, seed, forms=("str", "list", "tuple", "sio", "file"), ask=2):
    """Reads the lines in some of the ways they can be given."""
    from pads.read_undirected_graph import readUndirectedGraph
    rng = random.Random(seed)
    ops = []
    for form in rng.sample(forms, ask):
        scratch = None
        try:
            text = "\n".join(lines)
            if form == "str":
                arg = text
            elif form == "list":
                arg = list(lines)
            elif form == "tuple":
                arg = tuple(lines)
            elif form == "sio":
                arg = io.StringIO(text + rng.choice(["", "\n"]))
            else:
                scratch = tempfile.mkdtemp()
                with open(os.path.join(scratch, "g"), "w") as f:
                    f.write(text + rng.choice(["", "\n"]))
                arg = open(os.path.join(scratch, "g"))
            try:
                G = readUndirectedGraph(arg)
            except Exception as e:
                ops.append({"op": "refused", "form": form, "exc": type(e).__name__})
                continue
            finally:
                if scratch:
                    arg.close()
            ops.append({"op": "graph", "form": form,
                        "r": [[vname(v), [[vname(w), vname(G[v][w])] for w in G[v]]] for v in G]})
        except Exception as e:
            ops.append(raised(e))
        finally:
            if scratch:
                shutil.rmtree(scratch)
    return {"doc": doc, "text": lines[:40], "ops": ops}


# ---------------------------------------------------------------- packed
def chars(data):
    return "".join(chr(d + 63) for d in data)


def size(n):
    return [n] if n <= 62 else [63, n >> 12, n >> 6 & 63, n & 63]


def pack(bits, pad):
    bits = bits + [pad] * (-len(bits) % 6)
    return [int("".join(map(str, bits[i:i + 6])), 2) for i in range(0, len(bits), 6)]


def enc6(n, edges):
    e = {(min(a, b), max(a, b)) for a, b in edges}
    return size(n) + pack([int((i, j) in e) for j in range(1, n) for i in range(j)], 0)


def encs(n, edges):
    k = max(1, (n - 1).bit_length())
    num = lambda x: [x >> i & 1 for i in range(k - 1, -1, -1)]
    out, cur = [], 0
    for b, a in sorted((max(e), min(e)) for e in edges):
        if b == cur:
            out += [0] + num(a)
        elif b == cur + 1:
            out += [1] + num(a)
            cur = b
        else:
            out += [1] + num(b) + [0] + num(a)
            cur = b
    gap = -len(out) % 6
    if gap > k and n == 1 << k and cur == n - 2:
        out.append(0)
    return size(n) + pack(out, 1)


def six(data, seed, head=None):
    h = [">>graph6<<", ""][seed % 2] if head is None else head
    return call({"fmt": "graph6", "data": data}, [h + chars(data)], seed)


def sparse(data, seed):
    h = [">>sparse6<<", ""][seed % 2]
    return call({"fmt": "sparse6", "data": data}, [h + ":" + chars(data)], seed)


# ---------------------------------------------------------------- line formats
def num(w):
    try:
        return int(w)
    except ValueError:
        return -1


def blanks(rng, lines, extra=("",)):
    out = []
    for i, x in enumerate(lines):
        if i and rng.random() < .1:
            out.append(rng.choice(extra))
        out.append(x)
    return out


def malf(n, edges, rng, bad):
    nodes = [[str(i + 1)] + rng.choice([[], ["x"], ["12", "7", "name"]]) for i in range(n)]
    rows = [[str(i + 1), "0"] + [str(x + 1) for x in e] for i, e in enumerate(edges)]
    if bad and n:
        c = rng.randrange(7)
        if c == 0:
            nodes[rng.randrange(n)][0] = rng.choice(["0", "9", "x", str(n + 1)])
        elif rows:
            r = rows[rng.randrange(len(rows))]
            if c == 1:
                r[0] = rng.choice(["0", "99", "q"])
            elif c == 2:
                r[1] = "1"
            elif c == 3:
                r[2 + rng.randrange(2)] = rng.choice(["0", str(n + 1), "q"])
            elif c == 4:
                r.append("3")
            elif c == 5:
                r.pop()
            else:
                r[2] = r[3]
    sep = rng.choice([" ", "  ", "\t"])
    lines = blanks(rng, [sep.join(r) for r in nodes] + ["#"] + [sep.join(r) for r in rows])
    doc = {"fmt": "malf", "nodes": [num(r[0]) for r in nodes], "edges": [[num(w) for w in r] for r in rows]}
    return doc, lines


WORDS = ["a", "b", "v1", "v2", "x-y", "-1", "0", "17", "Node", "node", "éa", "1.5", "q#", "_", "A_", "Zz", "#b", "c:d", "m/n", "<w"]


def edgelist(n, edges, rng, bad):
    w = rng.sample(WORDS, n) if n <= len(WORDS) else ["w%d" % i for i in range(n)]
    rows = [[w[a], w[b]] if rng.random() < .6 else [w[a], "-", w[b]] for a, b in edges]
    if not rows:
        return None
    if rows[0][0][:1] in "<#/":
        rows[0] = rows[0][::-1]
    if rows[0][0][:1] in "<#/":
        return None
    if bad:
        r = rows[rng.randrange(len(rows))]
        c = rng.randrange(5)
        if c == 0:
            r.append("z")
        elif c == 1:
            del r[1:]
        elif c == 2:
            r[-1] = r[0]
        elif c == 3:
            r[1:1] = [rng.choice(["--", "+", "->"])]
        else:
            r[:] = [r[0], "=", r[-1]]
    if len(rows) == 1 and len(rows[0]) == 1:
        return None                  # a lone word may be read as graph6
    if any(r == ["#"] for r in rows):
        return None
    sep = rng.choice([" ", "   ", "\t"])
    lines = blanks(rng, [sep.join(r) for r in rows])
    return {"fmt": "edges", "lines": rows}, lines


def nodeedge(n, edges, rng, bad):
    w = [x for x in WORDS if x != "_"][:n] if rng.random() < .5 else ["two words %d" % i for i in range(n)]
    w = w + ["w%d" % i for i in range(n - len(w))]
    rng.shuffle(w)
    out = [["h", "nodes"]]
    cut = rng.randrange(len(edges) + 1)
    cutn = max([max(e) for e in edges[:cut]], default=-1) + 1
    split = rng.random() < .3
    out += [["w", x] for x in (w[:cutn] if split else w)]
    parts = [edges[:cut], edges[cut:]]
    uniq = 0
    for i, es in enumerate(parts):
        if i and split:
            out += [["h", "nodes"]] + [["w", x] for x in w[cutn:]]
        named = rng.random() < .5
        if es or rng.random() < .5:
            out.append(["h", "named edges" if named else "edges"])
        for a, b in es:
            uniq += 1
            out += [["w", rng.choice(["e%d", "%d"]) % uniq]] if named else []
            out += [["w", w[a]], ["w", w[b]]]
    if bad:
        c = rng.randrange(6)
        i = rng.randrange(len(out))
        if c == 0:
            del out[i]
        elif c == 1:
            out.insert(i, list(rng.choice(out)))
        elif c == 2:
            out[i] = ["h", rng.choice(["stuff", "node", "Edges"])]
        elif c == 3:
            out[i] = ["w", rng.choice(["unheard", w[0] if w else "z"])]
        elif c == 5 and n > 1:            # a name used for two edges
            x = rng.sample(w, 2)
            out += [["h", "named edges"], ["w", "twice"], ["w", x[0]], ["w", x[1]]]
            for i in range(rng.randrange(4)):       # others in between
                y = rng.sample(w, 2)
                out += [["w", "between %d" % i], ["w", y[0]], ["w", y[1]]]
            if rng.random() < .3:
                out += [["h", "nodes"], ["w", "a late one"], ["h", "named edges"]]
            out += [["w", "twice"], ["w", x[1]], ["w", rng.choice(w)]]
        else:
            del out[-1:]
        if not out or out[0][0] != "h":
            return None
    lines = blanks(rng, [("// " if k == "h" else "") + x for k, x in out])
    return {"fmt": "nodeedge", "lines": out}, lines


def graphml(n, edges, rng, bad):
    w = ["n%d" % i for i in range(n)] if rng.random() < .5 else ["id %d &amp; co" % i for i in range(n)]
    default = rng.choice(["undirected", "undirected", "directed"])
    flag = lambda: "false" if default == "directed" else rng.choice(["", "", "false"])
    els = [["node", x] for x in w] + [["edge", w[a], w[b], flag()] for a, b in edges]
    if rng.random() < .3:                      # a node may come just before its first use
        late = els[:n]
        els = []
        seen = set()
        for a, b in edges:
            for x in (a, b):
                if x not in seen:
                    els.append(late[x])
                    seen.add(x)
            els.append(["edge", w[a], w[b], flag()])
        els += [late[x] for x in range(n) if x not in seen]
    if bad and els:
        e = rng.choice(els)
        c = rng.randrange(6)
        if c == 0:
            default = ""
        elif e[0] == "node":
            e[1] = rng.choice(["", els[0][1], els[-1][1]])
        elif c <= 2:
            e[3] = "true"
        elif c == 3:
            e[1 + rng.randrange(2)] = rng.choice(["", "nobody"])
        elif c == 4:
            e[2] = e[1]
        else:
            default, e[3] = "directed", ""
    br = rng.choice([" ", " ", "\n", "\n   "])
    extra = rng.random() < .4
    t = ['<?xml version="1.0" encoding="UTF-8"?>'] if rng.random() < .6 else []
    t += ['<graphml xmlns="http://graphml.graphdrawing.org/xmlns">']
    if extra:
        t += ['<key id="k" for="node" attr.name="colour"/>', "<!-- <node id='no'/> -->"]
        if rng.random() < .4:               # sections of other programs
            t += ['<data key="legend"><node id="legend"/><edge source="legend" target="legend"/></data>']
    t += ['<graph id="G"' + (br + 'edgedefault="%s"' % default if default else "") + ">"]
    for e in els:
        if e[0] == "node":
            at = [('id', e[1])]
        else:
            at = [("source", e[1]), ("target", e[2]), ("directed", e[3])]
            rng.shuffle(at)
        s = "<" + e[0] + "".join(br + "%s=%s%s%s" % (k, q, v, q) for k, v in at if v for q in [rng.choice("\"'")])
        if extra and e[0] == "node":
            s += '><data key="k">red</data>'
            if rng.random() < .2:           # a drawing of what is inside the node
                s += '<graph edgedefault="directed"><node id="in a"/><node id="in b"/><edge source="in a" target="in b"/></graph>'
            s += '</node>'
        else:
            s += "/>"
        t.append(s)
    t += ["</graph>", "</graphml>"]
    doc = {"fmt": "graphml", "default": default,
           "els": [[x.replace("&amp;", "&") for x in e] for e in els]}
    text = rng.choice(["\n", "\n", "\n\n  "]).join(t)
    if rng.random() < .15:
        text = "".join(t)
    return doc, [x.strip() for x in text.split("\n")]


def leda(n, edges, rng, bad):
    arcs = []
    for a, b in edges:
        x, y = [(a, b), (b, a)][rng.randrange(2)]
        arcs += [[x + 1, y + 1, 0], [y + 1, x + 1, 0]]
    order = list(range(len(arcs)))
    if rng.random() < .6:
        rng.shuffle(order)
    pos = {x: i for i, x in enumerate(order)}
    arcs = [[arcs[x][0], arcs[x][1], pos[x ^ 1] + 1] for x in order]
    count, ncount = len(arcs), n
    ok = True
    if bad and arcs:
        i = rng.randrange(len(arcs))
        c = rng.randrange(5)
        if c == 0:
            arcs[i][2] = 0
        elif c == 1:
            arcs = [[n + 1 if x == n else x for x in a[:2]] + [a[2]] for a in arcs]
            ok = all(n not in e[:2] for e in arcs)
        elif c == 2:
            count, ok = count + 1, False
        elif c == 3:
            ncount, ok = n + 1, False
        else:
            arcs[i][0] = -1 if arcs[i][0] < arcs[i][1] else arcs[i][0]
            if arcs[i][0] != -1:
                arcs[i][2] = 0
    rows = [" ".join(map(str, a)) + " |{%s}|" % rng.choice(["", "red", "a b"]) for a in arcs]
    lines = ["LEDA.GRAPH", rng.choice(["string", "void"]), "int", str(ncount)] + ["|{%s}|" % rng.choice(["", "x", "one two"]) for _ in range(n)]
    lines += [str(count)] + rows
    lines = blanks(rng, lines, ("", "# a comment", "#"))
    if not ok:
        return {"fmt": "junk"}, lines
    return {"fmt": "leda", "n": n, "arcs": arcs}, lines


MAKERS = (malf, edgelist, nodeedge, graphml, leda)
JUNK = [[">>graph6<<"], [">>sparse6<<"], [":"], ["~"], ["~?"], [":~??"], [">>graph6<<C!"], [">>sparse6<<C~"], ["C"], ["C~~"],
        ["LEDA.GRAPH"], ["LEDA.GRAPH", "string", "int"], ["LEDA.GRAPH", "string", "int", "x"],
        ["LEDA.GRAPH", "s", "s", "1", "|{}|", "1", "1 2"],
        ["<graph edgedefault='undirected'>", "</graph>"], ["<graphml>"], ["<graphml><graph edgedefault='undirected'>", "</graphml>"],
        ["// nodes", "a", "b", "// edges", "a"], ["// nodes", "a", "b", "// named edges", "e", "a"], ["// nodes", "a", "b", "// named edges", "e"],
        ["//nodes", "a", "b"], ["//", "a"], ["// nodes", "a", "b", "c", "// named edges", "e", "a", "b", "e", "b", "c"],
        ["one two three four"], ["a b", "c"], ["1", "2", "#", "1 0 1 1"], ["1", "3", "#"]]


def cases(tier, rng):
    big = tier == "thorough"
    for i, j in enumerate(JUNK):
        yield "junk-%d" % i, lambda j=j, i=i: call({"fmt": "junk"}, j, i, ask=4)
    seen = {}
    for k, g in enumerate(generated("txt")):
        seen[tuple(g["d"])] = 1
        if big or k % 3 == 0:
            yield "w-%d" % k, lambda g=g, k=k: sparse(g["s"], k)
    for k, d in enumerate(seen):
        yield "six-%d" % k, lambda d=d, k=k: six(list(d), k)
        for j in range(2):
            e = list(d)
            if j:
                e.append(rng.randrange(64))
            elif len(e) > 1:
                e.pop()
            yield "six-%d-%d" % (k, j), lambda e=e, k=k: six(e, k + j)
    # every two-unit sparse text for small sizes
    for n in range(0, 9):
        units = [()] + [(a,) for a in range(64)]
        units += [(a, b) for a in range(64) for b in range(64) if big or rng.random() < .06]
        for u in units:
            yield "raw-%d-%s" % (n, "-".join(map(str, u))), lambda n=n, u=u: sparse([n] + list(u), sum(u))
    for i in range(1500 if big else 500):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33])
        e = undirected(rng, n) if rng.random() < .6 else random_edges(rng, n, rng.choice([0, .05, .1, .3]))
        yield "s-%d" % i, lambda a=(n, e), i=i: sparse(encs(*a), i)
        yield "d-%d" % i, lambda a=(n, e), i=i: six(enc6(*a), i)
    for n in (61, 62, 63, 64, 65, 70, 100):
        for j in range(2):
            e = [tuple(rng.sample(range(n), 2)) for _ in range(rng.choice([5, 40]))] + [(n - 1, n - 2)] * j
            e = simple(e)
            yield "big-s-%d-%d" % (n, j), lambda n=n, e=e, j=j: sparse(encs(n, e), j)
            if n < 71:
                yield "big-d-%d-%d" % (n, j), lambda n=n, e=e, j=j: six(enc6(n, e), j)
    for n in (200, 4100):
        e = simple([tuple(rng.sample(range(n), 2)) for _ in range(30)] + [(0, n - 1)])
        yield "huge-%d" % n, lambda n=n, e=e: sparse(encs(n, e), n)
    for n in range(5):
        for j, e in enumerate(all_edge_sets(n)):
            for m, f in enumerate(MAKERS):
                r = f(n, e, random.Random(rng.getrandbits(30)), False)
                if r:
                    yield "%s-%d-%d" % (f.__name__, n, j), lambda r=r, j=j: call(*r, j)
    for i in range(1200 if big else 400):
        n = rng.randint(1, 12)
        e = undirected(rng, n)
        if e and rng.random() < .15:
            e = e + [e[0]]
        rng.shuffle(e)
        e = [x[::-1] if rng.random() < .5 else x for x in e]
        f = MAKERS[i % 5]
        for bad in (False, True):
            r = f(n, e, random.Random(rng.getrandbits(30)), bad)
            if r:
                yield "%s%s-%d" % ("bad-" if bad else "", f.__name__, i), lambda r=r, i=i: call(*r, i)

"""Sessions of calls over all modules: answers compared with those of the same call made alone."""
import hashlib
import json
import os
import sys
import importlib
from collections import defaultdict
from graphlib import *


def canon(x, depth=0):
    if depth > 12:
        return "..."
    if isinstance(x, (bool, int, str, type(None))):
        return repr(x)
    if isinstance(x, float):
        return "%.9g" % x
    if isinstance(x, dict):
        return "{" + ",".join(sorted(canon(k, depth + 1) + ":" + canon(v, depth + 1) for k, v in x.items())) + "}"
    if isinstance(x, (set, frozenset)):
        return "<" + ",".join(sorted(canon(k, depth + 1) for k in x)) + ">"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canon(k, depth + 1) for k in x) + "]"
    n = type(x).__name__
    if n == "SymbolicNegation":
        return repr(x)
    if hasattr(x, "keys") and hasattr(x, "__getitem__"):
        return n + canon(dict((k, x[k]) for k in x.keys()), depth + 1)
    if hasattr(x, "__iter__"):
        return n + canon(list(x), depth + 1)
    return n


def short(x):
    s = canon(x)
    return s if len(s) < 60 else s[:20] + hashlib.sha1(s.encode()).hexdigest()


def mod(name):
    return importlib.import_module("pads." + name)


def und(edges, n, style=int, cont=set):
    G = {style(v): [] for v in range(n)}
    for a, b in edges:
        G[style(a)].append(style(b))
        G[style(b)].append(style(a))
    return {v: cont(G[v]) for v in G}


def arguments(k):
    """The arguments of a session, number k."""
    import random
    r = random.Random(k)
    s = [int, lambda v: "v%d" % v, lambda v: v * 10 + 5][k % 3]
    n = 7 + k % 3
    c = [set, set, frozenset, list, dict.fromkeys][k % 5]
    A = {}
    A["G"] = und([(a, b) for a in range(n) for b in range(a) if r.random() < .4], n, s)
    A["H"] = defaultdict(set, und([(a, b) for a in range(n) for b in range(a) if r.random() < .35 and (a + b) % 2], n, s))
    A["T"] = und([(v, r.randrange(v)) for v in range(1, n)], n, s, c)
    A["BI"] = und([(i, (i + 1) % 6) for i in range(6)] + [(0, 3), (1, 6), (6, 2)], 7, s, c)
    m = 4 + k % 2
    A["PR"] = und([(i, (i + 1) % m) for i in range(m)] + [(m + i, m + (i + 1) % m) for i in range(m)] + [(i, m + i) for i in range(m)], 2 * m, s, c)
    A["Q"] = und([(a, a ^ b) for a in range(8) for b in (1, 2, 4) if a < a ^ b], 8, s, c)
    A["W"] = und([(0, i) for i in range(1, 6)] + [(i, i % 5 + 1) for i in range(1, 6)], 6, s, c)
    A["HAL"] = und([(0, 1), (0, 2), (0, 3), (1, 4), (1, 5), (3, 6), (3, 7), (4, 5), (5, 2), (2, 6), (6, 7), (7, 4)], 8, s, c)
    D = {s(v): set() for v in range(n)}
    E = {s(v): set() for v in range(n)}
    for a in range(n):
        for b in range(n):
            if a < b and r.random() < .35:
                D[s(a)].add(s(b))
            if a != b and r.random() < .2:
                E[s(a)].add(s(b))
    A["D"], A["E"] = D, E
    A["BM"] = {"l%d" % u: [("r", v) for v in range(5) if r.random() < .4] for u in range(5)}
    A["IM"] = {s(v): [] for v in range(n)}
    V = sorted(A["G"])
    A["IM"] = {}
    for v in V:
        for w in A["G"][v]:
            if v not in A["IM"] and w not in A["IM"] and r.random() < .5:
                A["IM"][v], A["IM"][w] = w, v
    A["MST"] = {s(v): {} for v in range(n)}
    for a in range(n):
        for b in range(a):
            if r.random() < .6:
                A["MST"][s(a)][s(b)] = A["MST"][s(b)][s(a)] = r.randint(1, 9)
    A["PAR"] = {s(v): s(r.randrange(v)) for v in range(1, n)}
    A["PAIRS"] = [(s(r.randrange(n)), s(r.randrange(n))) for _ in range(5)]
    A["X"] = [r.randint(0, 5) for _ in range(9)]
    A["Y"] = [r.randint(0, 5) for _ in range(8)]
    A["Z"] = [r.randint(0, 1) for _ in range(7)]
    A["ITEMS"] = ["p", "q", "r", "s"][:3 + k % 2]
    A["LAB"] = {}
    for v, w in [(0, 1), (1, 2), (2, 0), (2, 3), (3, 0), (3, 4)]:
        L = r.sample("abc", r.randint(1, 2))
        A["LAB"].setdefault(v, {})[w] = L
        A["LAB"].setdefault(w, {})[v] = L
    Not = mod("_not").Not
    vs = ["x", "y", "z", "w"]
    lit = lambda: (lambda v: v if r.random() < .5 else Not(v))(r.choice(vs))
    A["SAT"] = {}
    for _ in range(6):
        A["SAT"].setdefault(lit(), set()).add(lit())
    A["LINES"] = ["a b", "b c", "c d", "d a", "a c"]
    A["PERM"] = [(0, 1), (1, 0)]
    A["MED"] = {b: {} for b in "abcd"}
    for i, (a, b) in enumerate([("a", "b"), ("b", "c"), ("c", "d"), ("d", "a")]):
        A["MED"][a][b] = (i % 2, i < 2)
        A["MED"][b][a] = (i % 2, i >= 2)
    A["POINTS"] = [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
    A["FAC"] = {2: 2, 3: 1, 7: 1}
    A["V"] = list(A["G"])[: n // 2]
    A["WORDS"] = "The well-known end. Of a rather long-winded text that is to be set."
    A["PUZ"] = [int(c) for c in "530070000600195000098000060800060003400803001700020006060000280000419005000080079"]
    A["INT"] = {0: [1, 2, 3, 4, 5]}
    A["EXT"] = {1: 1.0, 2: 2.0, 3: 1.5, 4: 1.0, 5: 1.0}
    return A


C = {}      # plain calls: name -> function of the arguments
I = {}      # iterations


def call(name):
    return lambda f: C.__setitem__(name, f) or f


# graphs in general
for a in ("G", "H", "Q", "E"):
    C["bfs " + a] = lambda A, a=a: [sorted(map(repr, l)) for l in mod("bfs").breadth_first_levels(A[a], sorted(A[a], key=repr)[0])]
    I["bfs " + a] = lambda A, a=a: mod("bfs").breadth_first_levels(A[a], sorted(A[a], key=repr)[0])
    for f in ("search", "preorder", "postorder"):
        I["dfs %s %s" % (f, a)] = lambda A, a=a, f=f: getattr(mod("dfs"), f)(A[a])
        I["dfs %s from %s" % (f, a)] = lambda A, a=a, f=f: getattr(mod("dfs"), f)(A[a], sorted(A[a], key=repr)[1])
    C["reach " + a] = lambda A, a=a: mod("dfs").reachable(A[a], sorted(A[a], key=repr)[0], sorted(A[a], key=repr)[-1])
    I["strong " + a] = lambda A, a=a: iter(mod("strong_connectivity").StronglyConnectedComponents(A[a]))
    C["condense " + a] = lambda A, a=a: mod("strong_connectivity").Condensation(A[a])
    C["undirected " + a] = lambda A, a=a: mod("graphs").is_undirected(A[a])
    C["copy " + a] = lambda A, a=a: mod("graphs").copy_graph(A[a])
    C["copy list " + a] = lambda A, a=a: sorted((repr(k), sorted(map(repr, v))) for k, v in mod("graphs").copy_graph(A[a], list).items())
    C["degrees " + a] = lambda A, a=a: (mod("graphs").max_degree(A[a]), mod("graphs").min_degree(A[a]))
for a in ("G", "H", "T", "BI", "PR", "Q", "W", "HAL"):
    I["bicon " + a] = lambda A, a=a: iter(mod("biconnectivity").BiconnectedComponents(A[a]))
    C["is bicon " + a] = lambda A, a=a: mod("biconnectivity").is_biconnected(A[a])
    C["two color " + a] = lambda A, a=a: mod("bipartite").is_bipartite(A[a])
    C["odd core " + a] = lambda A, a=a: mod("bipartite").odd_core(A[a])
    C["matching " + a] = lambda A, a=a: mod("cardinality_matching").matching(A[a])
    C["greedy " + a] = lambda A, a=a: mod("cardinality_matching").greedy_matching(A[a])
    C["chordal " + a] = lambda A, a=a: mod("chordal").is_chordal(A[a])
    I["lex bfs " + a] = lambda A, a=a: iter(mod("lex_bfs").lex_bfs(A[a]))
    I["degeneracy seq " + a] = lambda A, a=a: iter(mod("graphdegeneracy").degeneracySequence(A[a]))
    C["degeneracy " + a] = lambda A, a=a: mod("graphdegeneracy").degeneracy(A[a])
    C["degeneracy orient " + a] = lambda A, a=a: mod("graphdegeneracy").degeneracyOrientation(A[a])
    C["core " + a] = lambda A, a=a: mod("graphdegeneracy").core(A[a])
    C["core2 " + a] = lambda A, a=a: mod("graphdegeneracy").core(A[a], 2)
    I["triangles " + a] = lambda A, a=a: iter(mod("graphdegeneracy").triangles(A[a]))
    C["D3 " + a] = lambda A, a=a: mod("halin").is_D3_reducible(A[a])
    C["halin " + a] = lambda A, a=a: mod("halin").is_halin(A[a])
    C["halin leaves " + a] = lambda A, a=a: mod("halin").halin_leaf_vertices(A[a])
    C["dual 3-tree " + a] = lambda A, a=a: mod("halin").is_dual_3_tree(A[a])
    C["wheel " + a] = lambda A, a=a: mod("halin").is_wheel(A[a])
    C["partial cube " + a] = lambda A, a=a: mod("partial_cube").isPartialCube(A[a])
    C["independent " + a] = lambda A, a=a: mod("graphs").is_independent_set(list(A[a])[:2], A[a])
    C["induced " + a] = lambda A, a=a: mod("graphs").induced_subgraph(list(A[a])[:4], A[a])
    C["union G " + a] = lambda A, a=a: mod("graphs").union(A["G"], A[a])
C["peo T"] = lambda A: mod("chordal").perfect_elimination_ordering(A["T"])
C["st PR"] = lambda A: mod("biconnectivity").st_orientation(A["PR"])
C["ham D3 W"] = lambda A: mod("halin").hamiltonian_cycle_D3(A["W"])
C["ham D3 HAL"] = lambda A: mod("halin").hamiltonian_cycle_D3(A["HAL"])
C["matching from"] = lambda A: mod("cardinality_matching").matching(A["G"], A["IM"])
C["greedy from"] = lambda A: mod("cardinality_matching").greedy_matching(A["G"], A["IM"])
C["induced V"] = lambda A: mod("graphs").induced_subgraph(A["V"], A["G"])
C["color Q"] = lambda A: mod("bipartite").two_color(A["Q"])
C["sides Q"] = lambda A: sorted(map(repr, mod("bipartite").bipartition(A["Q"])))
C["orient Q"] = lambda A: mod("bipartite").bipartite_orientation(A["Q"])
for a in ("PR", "Q"):
    I["ham " + a] = lambda A, a=a: mod("cubic_ham").hamiltonian_cycles(A[a])
    I["match partitions " + a] = lambda A, a=a: mod("xyz_graph").CubicMatchPartitions(A[a])
    I["xyz " + a] = lambda A, a=a: mod("xyz_graph").xyzEmbeddings(A[a])
C["is xyz"] = lambda A: mod("xyz_graph").isxyz(A["POINTS"])
C["cube labels"] = lambda A: mod("partial_cube").PartialCubeLabeling(A["Q"])
C["cube edges"] = lambda A: mod("partial_cube").PartialCubeEdgeLabeling(A["Q"])
C["cube medium"] = lambda A: sorted(map(repr, mod("partial_cube").MediumForPartialCube(A["Q"]).states()))
C["medium"] = lambda A: mod("medium").RoutingTable(mod("medium").LabeledGraphMedium(A["MED"]))
C["medium cube"] = lambda A: mod("medium").HypercubeEmbedding(mod("medium").LabeledGraphMedium(A["MED"]))
C["medium graph"] = lambda A: mod("medium").StateTransitionGraph(mod("medium").LabeledGraphMedium(A["MED"]))
C["petersen"] = lambda A: mod("graph_examples").GeneralizedPetersenGraph(5, 2)
C["lcf"] = lambda A: mod("graph_examples").LCFNotation(A["PERM"][0], 4) if False else mod("graph_examples").CubeConnectedCycles(3)
# orders
C["topological"] = lambda A: mod("partial_order").TopologicalOrder(A["D"])
C["is topological"] = lambda A: mod("partial_order").isTopologicalOrder(A["D"], list(A["D"]))
C["acyclic D"] = lambda A: mod("partial_order").isAcyclic(A["D"])
C["acyclic E"] = lambda A: mod("partial_order").isAcyclic(A["E"])
C["closure"] = lambda A: mod("partial_order").TransitiveClosure(A["D"])
I["paths"] = lambda A: mod("partial_order").MinimumPathDecomposition(A["D"])
I["chains"] = lambda A: mod("partial_order").MinimumChainDecomposition(A["D"])
C["antichain"] = lambda A: mod("partial_order").MaximumAntichain(A["D"])
C["reachability"] = lambda A: [mod("acyclic_reachability").Reachability(A["D"]).reachable(v, w) for v in A["D"] for w in A["D"]]
C["bip matching"] = lambda A: mod("bipartite_matching").matching(A["BM"])
C["imperfections"] = lambda A: mod("bipartite_matching").imperfections({k: v + [("r", 9)] for k, v in A["BM"].items()}) and mod("bipartite_matching").imperfections(A["BM"])
C["mst"] = lambda A: mod("minimum_spanning_tree").MinimumSpanningTree(A["MST"])
C["sat"] = lambda A: mod("two_satisfiability").Satisfiable(A["SAT"])
C["forced"] = lambda A: mod("two_satisfiability").Forced(A["SAT"])
C["symmetrize"] = lambda A: mod("two_satisfiability").Symmetrize(A["SAT"])
I["walks"] = lambda A: mod("repetitivity").NonrepetitiveGraph(A["LAB"]).cyclic()
C["walk reach"] = lambda A: set(mod("repetitivity").NonrepetitiveGraph(A["LAB"]).reachable(0, "a"))
# trees, ranges, sequences
C["lca"] = lambda A: (lambda L: [L(*p) for p in A["PAIRS"]])(mod("lca").LCA(A["PAR"]))
C["offline lca"] = lambda A: (lambda L: [L[a][b] for a, b in A["PAIRS"]])(mod("lca").OfflineLCA(A["PAR"], A["PAIRS"]))
C["range min"] = lambda A: (lambda R: [R[i:j] for i in range(9) for j in range(i + 1, 10)])(mod("lca").RangeMin(A["X"]))
C["log range min"] = lambda A: (lambda R: [R[i:j] for i in range(9) for j in range(i + 1, 10)])(mod("lca").LogarithmicRangeMin(A["X"]))
C["lcs"] = lambda A: mod("lcs").longest_common_subsequence(A["X"], A["Y"])
C["lis"] = lambda A: mod("longest_increasing_subsequence").longest_increasing_subsequence(A["X"])
C["conjugate"] = lambda A: mod("integer_partitions").conjugate(sorted((x + 1 for x in A["X"]), reverse=True))
C["practical"] = lambda A: mod("eratosthenes").is_practical_factorization(A["FAC"])
C["moebius"] = lambda A: [mod("eratosthenes").moebius_function(n) for n in (30, 4, 17, 12)]
C["minima"] = lambda A: mod("smawk").ConcaveMinima(range(5), range(6), lambda i, j: (i - j) ** 2 + A["X"][i])
I["online minima"] = lambda A: iter(mod("smawk").OnlineConcaveMinima(lambda i, j: (i - j) ** 2, 0))
for n in (4, 5):
    for f in ("mckay", "revlex_partitions", "lex_partitions", "binary_partitions"):
        I["%s %d" % (f, n)] = lambda A, n=n, f=f: iter(getattr(mod("integer_partitions"), f)(n + 2))
    I["fixed partitions %d" % n] = lambda A, n=n: mod("integer_partitions").fixed_length_partitions(n + 4, 3)
    for f in ("PlainChanges", "DoublePlainChanges", "DoubleSteinhausJohnsonTrotter", "StirlingChanges", "StirlingPermutations", "InvolutionChanges", "Involutions"):
        I["%s %d" % (f, n)] = lambda A, n=n, f=f: getattr(mod("permutations"), f)(n)
    I["lyndon %d" % n] = lambda A, n=n: mod("lyndon").LengthLimitedLyndonWords(2, n)
    I["lyndon length %d" % n] = lambda A, n=n: mod("lyndon").LyndonWordsWithLength(2, n)
    I["de bruijn %d" % n] = lambda A, n=n: mod("lyndon").DeBruijnSequence(2, n)
I["sjt"] = lambda A: mod("permutations").SteinhausJohnsonTrotter(A["ITEMS"])
I["lyndon all"] = lambda A: mod("lyndon").LyndonWords(2)
I["factors Z"] = lambda A: iter(mod("lyndon").ChenFoxLyndon(A["Z"]))
I["breaks Z"] = lambda A: iter(mod("lyndon").ChenFoxLyndonBreakpoints(A["Z"]))
C["rotation"] = lambda A: mod("lyndon").SmallestRotation(A["Z"])
C["suffix"] = lambda A: mod("lyndon").SmallestSuffix(A["Z"])
C["lyndon word"] = lambda A: mod("lyndon").isLyndonWord(A["Z"])
for f in ("primes", "factored_integers", "moebius_sequence", "practical_numbers"):
    I[f] = lambda A, f=f: getattr(mod("eratosthenes"), f)()
# ties come in any order
I["points"] = lambda A: (x * x + y * y for x, y in mod("integerpoints").IntegerPointsByDistance())
# structures over given collections
I["union find"] = lambda A: iter(sorted((lambda u: [u.union(*A["X"][:2]), u.union(*A["X"][3:6]), [u[x] == u[y] for x in A["X"] for y in A["X"]]][2:])(mod("union_find").UnionFind())))
C["partition"] = lambda A: (lambda p: [p.refine(A["V"]) and 0, sorted(sorted(map(repr, s)) for s in p)][1:])(mod("partition_refinement").PartitionRefinement(A["G"]))
C["partition of V"] = lambda A: (lambda p: sorted(sorted(map(repr, s)) for s in p))(mod("partition_refinement").PartitionRefinement(A["V"]))
I["sequence"] = lambda A: iter(mod("sequence").Sequence(A["ITEMS"]))
I["ordered sequence"] = lambda A: iter(mod("ordered_sequence").LogarithmicOrderedSequence(A["ITEMS"]))
I["sorted set"] = lambda A: iter(mod("sorted_set").SortedSet(set(A["X"]))) if False else iter(sorted(set(A["X"])))
C["regexp"] = lambda A: [w in mod("automata").language(mod("automata").RegExp("(a+bc)*b")) for w in ("b", "ab", "bcb", "abc", "")]
C["regexp equal"] = lambda A: mod("automata").language(mod("automata").RegExp("(a+b)*")) == mod("automata").language(mod("automata").RegExp("(a*b*)*"))
# text
C["read"] = lambda A: mod("read_undirected_graph").readUndirectedGraph(A["LINES"])
C["read edges"] = lambda A: mod("read_undirected_graph").readEdgeList(A["LINES"])
C["wrap"] = lambda A: mod("wrap").wrap(A["WORDS"], 20)
C["sudoku"] = lambda A: [list(s) for s in mod("sudoku").all_solutions(mod("sudoku").Sudoku(A["PUZ"]))]
C["unisolvent"] = lambda A: mod("sudoku").unisolvent(mod("sudoku").Sudoku(A["PUZ"]))
C["pack"] = lambda A: {k: (round(z.real, 6), round(z.imag, 6), round(r, 6)) for k, (z, r) in mod("circle_pack").circle_pack(A["INT"], A["EXT"]).items()}
del C["lcf"]
del I["sorted set"]



def batches(it):
    """Forty items at a time."""
    while True:
        out = []
        for x in it:
            out.append(canon(x))
            if len(out) == 40:
                break
        if not out:
            return
        yield out


STREAMS = sorted(I)
for name in STREAMS:
    I["batch " + name] = lambda A, f=I[name]: batches(iter(f(A)))

LONG = 10


def answer(f, A):
    try:
        return short(f(A))
    except Exception as e:
        return "raises " + type(e).__name__


def advance(it):
    try:
        return short(next(it))
    except StopIteration:
        return "end"
    except Exception as e:
        return "raises " + type(e).__name__


def broken(e):
    raise e
    yield


def start(f, A):
    try:
        return iter(f(A))
    except Exception as e:
        return broken(e)


def alone(kind, name, k):
    """The answers of a task with nothing before or beside it, from a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            A = arguments(k)
            if kind == "call":
                out = [answer(C[name], A)]
            else:
                it = start(I[name], A)
                out = [advance(it) for _ in range(LONG)]
            os.write(w, json.dumps(out).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(data.decode()) if data else []


MEMO = {}


def ref(kind, name, k):
    if (kind, name, k) not in MEMO:
        MEMO[kind, name, k] = alone(kind, name, k)
    return MEMO[kind, name, k]


def scribble(x, seen, depth=0):
    """Change every list, dictionary and set inside an answer."""
    if depth > 6 or id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, (list, tuple, dict)):
        for y in list(x.values() if isinstance(x, dict) else x):
            scribble(y, seen, depth + 1)
    if isinstance(x, list):
        x.append("scribbled")
    elif isinstance(x, dict):
        x["scribbled"] = "scribbled"
    elif isinstance(x, set):
        x.add("scribbled")


# these may answer with the very object they were given
GIVES_BACK = {"imperfections"}
SCRIBBLE = -1


def session(k, tasks, plan):
    """tasks: (kind, name); plan: indices of tasks to advance or call, in order."""
    A = arguments(k)
    base = [short(A[a]) for a in sorted(A)]
    tr = {"n": len(tasks), "alone": [ref(t[0], t[1], k) for t in tasks], "args": base, "tasks": [" ".join(t) for t in tasks], "ops": []}
    ops, its, held = tr["ops"], {}, []

    def put(**e):
        e["args"] = [short(A[a]) for a in sorted(A)]
        ops.append(e)
    for i in plan:
        if i == SCRIBBLE:
            for e, x in zip([e for e in ops if e["op"] == "call"][-len(held):], held):
                if tasks[e["k"] - 1][1] not in GIVES_BACK:
                    scribble(x, {})
            del held[:]
            put(op="scribble")
            continue
        kind, name = tasks[i]
        if kind == "call":
            try:
                x = C[name](A)
                held.append(x)
                put(op="call", k=i + 1, r=short(x))
            except Exception as e:
                held.append(None)
                put(op="call", k=i + 1, r="raises " + type(e).__name__)
        else:
            if i not in its:
                its[i] = (len(its) + 1, start(I[name], A), [0])
                put(op="open", k=i + 1)
            g, it, n = its[i]
            if n[0] < LONG:
                n[0] += 1
                put(op="next", g=g, r=advance(it))
    calls = [e for e in ops if e["op"] == "call"][-len(held):] if held else []
    put(op="again", r=[e["r"] if e["r"].startswith("raises") else short(x) for e, x in zip(calls, held)])
    return tr


def cases(tier, rng):
    big = tier == "thorough"
    plans = sorted(generated("calls"), key=lambda x: x["s"])
    f = 4 if big else 1
    its, calls = STREAMS, sorted(C)
    # preload, so that forks share the modules as freshly imported
    for m in sorted({n for n in ["bfs", "dfs", "sudoku", "medium", "xyz_graph", "halin", "automata", "circle_pack", "wrap", "lca", "eratosthenes"]}):
        try:
            mod(m)
        except Exception:
            pass
    n = 0
    for name in its:
        same = [x for x in its if x.split()[0] == name.split()[0]]
        for j in range(4 * f):
            other = [name, rng.choice(same), rng.choice(its), rng.choice(its)][j % 4]
            c = rng.choice(calls)
            p = [SCRIBBLE if x == 4 else x - 1 for x in rng.choice(plans)["s"]]
            p += [SCRIBBLE if x == 4 else x - 1 for x in rng.choice(plans)["s"]] + p
            k = rng.randrange(10 + 30 * (f > 1))
            yield "pair-%d" % n, lambda k=k, t=[("iter", name), ("iter", other), ("call", c)], p=p: session(k, t, p)
            n += 1
    # every call twice, with others in between
    for j in range(3 * f):
        order = list(calls)
        rng.shuffle(order)
        for i in range(0, len(order), 6):
            t = [("call", c) for c in order[i:i + 6]]
            p = list(range(len(t)))
            q = list(p)
            rng.shuffle(q)
            yield "calls-%d-%d" % (j, i), lambda k=rng.randrange(10 + 30 * (f > 1)), t=t, p=p + q + [SCRIBBLE] + p: session(k, t, p)
    for j in range(40 * f):
        t = [("iter", rng.choice(its)) for _ in range(4)] + [("call", rng.choice(calls)) for _ in range(4)]
        p = [rng.randrange(-1, 8) for _ in range(26)]
        yield "mixed-%d" % j, lambda k=rng.randrange(10 + 30 * (f > 1)), t=t, p=p: session(k, t, p)
    # long runs of the same iteration, one after the other and side by side
    for j, name in enumerate(STREAMS):
        t = [("iter", "batch " + name)] * 4 + [("call", rng.choice(calls))]
        p = [x for i in range(4) for x in [i] * 3] if j % 2 else [rng.randrange(5) for _ in range(14)]
        yield "long-%d" % j, lambda k=rng.randrange(10 + 30 * (f > 1)), t=t, p=p: session(k, t, p)
        p = [x for i in (3, 1, 0, 2) for x in [i] * 3 + [4]]
        yield "rerun-%d" % j, lambda k=rng.randrange(10 + 30 * (f > 1)), t=t, p=p: session(k, t, p)

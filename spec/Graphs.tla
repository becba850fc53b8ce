------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Finite graphs.  A graph is a function from its vertices to the sets of  *)
(* their (out-)neighbours; an undirected graph is one where adjacency is   *)
(* symmetric and irreflexive.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

GClause(name, ok) == IF ok THEN {} ELSE {name}
GOf(lists) == [v \in 1..Len(lists) |-> ToSet(lists[v])]     \* from recorded adjacency lists
V(g) == DOMAIN g
Arcs(g) == UNION {{<<v, w>> : w \in g[v]} : v \in V(g)}
Edges(g) == {{a[1], a[2]} : a \in Arcs(g)}
Undirected(g) == \A v \in V(g) : v \notin g[v] /\ \A w \in g[v] : w \in V(g) /\ v \in g[w]
Deg(g, v) == Cardinality(g[v])
Induced(g, S) == [v \in S |-> g[v] \cap S]
Transpose(g) == [v \in V(g) |-> {u \in V(g) : v \in g[u]}]
Simple(lists) == \A v \in 1..Len(lists) : IsInjective(lists[v])

RECURSIVE GGrow(_, _, _)
GGrow(g, front, seen) == IF front = {} THEN seen
                         ELSE LET nx == (UNION {g[v] : v \in front}) \ seen IN GGrow(g, nx, seen \cup nx)
Reach(g, v) == GGrow(g, {v}, {v})                            \* including v
ReachAll(g) == [v \in V(g) |-> Reach(g, v)]
RECURSIVE GPeel(_, _, _)
GPeel(g, S, acc) == IF S = {} THEN acc
                    ELSE LET c == Reach(g, CHOOSE v \in S : TRUE) IN GPeel(g, S \ c, acc \cup {c})
Components(g) == GPeel(g, V(g), {})                          \* undirected
Connected(g) == V(g) # {} => Reach(g, CHOOSE v \in V(g) : TRUE) = V(g)

\* breadth-first layers: <<layer 0, layer 1, ...>>
RECURSIVE GLayers(_, _, _, _)
GLayers(g, front, seen, acc) == IF front = {} THEN acc
    ELSE LET nx == (UNION {g[v] : v \in front}) \ seen IN GLayers(g, nx, seen \cup nx, Append(acc, front))
Layers(g, v) == GLayers(g, {v}, {v}, <<>>)
DistFrom(g, v) == LET L == Layers(g, v) IN
    [w \in UNION Range(L) |-> (CHOOSE i \in 1..Len(L) : w \in L[i]) - 1]

\* acyclic: repeatedly drop vertices without remaining out-neighbours
RECURSIVE GDrop(_, _)
GDrop(g, S) == LET sinks == {v \in S : g[v] \cap S = {}} IN IF sinks = {} THEN S ELSE GDrop(g, S \ sinks)
Acyclic(g) == GDrop(g, V(g)) = {}

AllDigraphs(n, loops) == IF loops THEN [1..n -> SUBSET (1..n)]
                         ELSE {g \in [1..n -> SUBSET (1..n)] : \A v \in 1..n : v \notin g[v]}
AllGraphs(n) == LET E == {e \in SUBSET (1..n) : Cardinality(e) = 2} IN
                {[v \in 1..n |-> {w \in 1..n : {v, w} \in F /\ w # v}] : F \in SUBSET E}
JG(g) == [v \in V(g) |-> SetToSeq(g[v])]                     \* for printing
=============================================================================

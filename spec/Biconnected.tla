---------------------------- MODULE Biconnected ----------------------------
(***************************************************************************)
(* Biconnected components and st-orientations of undirected graphs.        *)
(* Two edges are in one block iff no vertex separates them: for every      *)
(* vertex x, what is left of them after deleting x lies in one component.  *)
(***************************************************************************)
EXTENDS Graphs, TLC

\* the vertices other than x, each with the least vertex it is still connected to once x is gone
RECURSIVE PeelWithout(_, _, _, _)
PeelWithout(g, x, S, acc) ==
    IF S = {} THEN acc
    ELSE LET m == Min(S)
             c == GGrow(g, {m}, {m, x}) \ {x}
         IN  PeelWithout(g, x, S \ c, acc @@ [v \in c |-> m])
CutMaps(g) == [x \in V(g) |-> TLCEval(PeelWithout(g, x, V(g) \ {x}, <<>>))]
Signature(g, cm, e) == TLCEval([x \in V(g) |-> cm[x][CHOOSE v \in e : v # x]])
\* the blocks, as sets of edges, plus isolated vertices as singletons of vertices
BlockEdges(g) ==
    LET E == Edges(g)
        cm == TLCEval(CutMaps(g))
        sig == TLCEval([e \in E |-> Signature(g, cm, e)])
    IN  {{f \in E : sig[f] = sig[e]} : e \in E}
Isolated(g) == {v \in V(g) : g[v] = {}}
Biconn(g) == /\ Connected(g)
             /\ \A x \in V(g) : LET S == V(g) \ {x} IN S # {} => LET m == Min(S) IN GGrow(g, {m}, {m, x}) = V(g)

\* rows: <<vertex, neighbours>> of one returned subgraph
RowsGraph(rows) == [v \in {rows[i][1] : i \in 1..Len(rows)} |->
                       ToSet(rows[CHOOSE i \in 1..Len(rows) : rows[i][1] = v][2])]
RowsOK(rows) == /\ IsInjective([i \in 1..Len(rows) |-> rows[i][1]])
                /\ \A i \in 1..Len(rows) : IsInjective(rows[i][2])
CompsFails(g, r) ==
    IF ~\A i \in 1..Len(r) : RowsOK(r[i]) THEN {"a component lists no vertex or edge twice"}
    ELSE LET H == [i \in 1..Len(r) |-> RowsGraph(r[i])]
             B == BlockEdges(g) IN
         GClause("components are symmetric subgraphs", \A i \in 1..Len(r) :
                   Undirected(H[i]) /\ V(H[i]) \subseteq V(g) /\ Edges(H[i]) \subseteq Edges(g))
         \cup GClause("components with edges are exactly the blocks",
                   {Edges(H[i]) : i \in 1..Len(r)} \ {{}} = B)
         \cup GClause("a component's vertices are the ends of its edges, or one isolated vertex",
                   \A i \in 1..Len(r) : IF Edges(H[i]) = {} THEN \E x \in Isolated(g) : V(H[i]) = {x}
                                        ELSE V(H[i]) = UNION Edges(H[i]))
         \cup GClause("each block and isolated vertex is reported once",
                   Len(r) = Cardinality(B) + Cardinality(Isolated(g)))

\* r: rows <<v, out-neighbours>>
OrientFails(g, r) ==
    IF ~RowsOK(r) THEN {"the orientation lists no vertex or arc twice"}
    ELSE LET o == RowsGraph(r) IN
         IF V(o) # V(g) \/ ~\A v \in V(o) : o[v] \subseteq V(g) THEN {"the orientation has the graph's vertices"}
         ELSE GClause("every edge is directed exactly once",
                 /\ Edges(o) = Edges(g) /\ Cardinality(Arcs(o)) = Cardinality(Edges(g)))
              \cup GClause("the orientation is acyclic", Acyclic(o))
              \cup (LET src == {v \in V(o) : \A u \in V(o) : v \notin o[u]}
                        snk == {v \in V(o) : o[v] = {}} IN
                    GClause("one source and one sink", Cardinality(src) = 1 /\ Cardinality(snk) = 1)
                    \cup GClause("source and sink are adjacent", \A a \in src : \A b \in snk : b \in g[a]))

BIFails(st, e) ==
    LET g == st.g IN
    CASE e.op = "comps" ->
           IF ~Undirected(g) THEN GClause("graphs that are not undirected are refused", e.exc # "")
           ELSE IF e.exc # "" THEN {"components of an undirected graph are found"} ELSE CompsFails(g, e.r)
      [] e.op = "isbi" ->
           IF e.exc # "" THEN {"the biconnectivity test answers"}
           ELSE GClause("biconnectivity", e.r = (Undirected(g) /\ Biconn(g)))
      [] e.op = "st" ->
           IF ~Undirected(g) \/ ~Biconn(g) THEN GClause("graphs that are not biconnected are refused", e.exc # "")
           ELSE IF Edges(g) = {} THEN {}       \* nothing is promised without an edge
           ELSE IF e.exc # "" THEN {"a biconnected graph is oriented"} ELSE OrientFails(g, e.r)
      [] e.op = "raised" -> {"raised " \o e.exc}
BIApply(st, e) == st
=============================================================================

----------------------------- MODULE GraphFacts -----------------------------
(***************************************************************************)
(* Strong components, two-colouring, degeneracy and spanning forests:      *)
(* what each answer must be for a given graph.                             *)
(***************************************************************************)
EXTENDS Biconnected

-----------------------------------------------------------------------------
(* Strong components *)
Strong(g) == LET R == ReachAll(g) IN {{w \in R[v] : v \in R[w]} : v \in V(g)}
StrongFails(g, e) ==
    IF ~\A i \in 1..Len(e.r) : RowsOK(e.r[i]) THEN {"a component lists no vertex or edge twice"}
    ELSE LET H == [i \in 1..Len(e.r) |-> RowsGraph(e.r[i])]
             C == Strong(g) IN
         GClause("components are the classes of mutual reachability", {V(H[i]) : i \in 1..Len(H)} = C)
         \cup GClause("each component is reported once", Len(H) = Cardinality(C) /\ e.len = Len(H))
         \cup GClause("a component has all edges inside it",
                 \A i \in 1..Len(H) : V(H[i]) \subseteq V(g) => H[i] = Induced(g, V(H[i])))
\* rows <<vertices, list of vertex lists>>
CondFails(g, r) ==
    LET C == Strong(g)
        key(i) == ToSet(r[i][1]) IN
    GClause("the condensation's vertices are the components",
        {key(i) : i \in 1..Len(r)} = C /\ Len(r) = Cardinality(C))
    \cup GClause("the condensation's edges join components joined in the graph",
        \A i \in 1..Len(r) : {ToSet(r[i][2][j]) : j \in 1..Len(r[i][2])}
            = {D \in C \ {key(i)} : \E v \in key(i) \cap V(g) : g[v] \cap D # {}})

-----------------------------------------------------------------------------
(* Two-colouring *)
EvenLayers(g, c) == LET L == Layers(g, CHOOSE v \in c : TRUE) IN \A i \in 1..Len(L) : \A v \in L[i] : g[v] \cap L[i] = {}
Bipartite(g) == \A c \in Components(g) : EvenLayers(g, c)
OddBlocks(g) == {B \in BlockEdges(g) : ~Bipartite(TLCEval([v \in UNION B |-> {w \in g[v] : {v, w} \in B}]))}
OddEdges(g) == UNION OddBlocks(g)
ColorFails(g, e) ==
    IF ~Bipartite(g) THEN GClause("colouring a graph with an odd cycle is refused", e.exc = "NonBipartite")
    ELSE IF e.exc # "" THEN {"a bipartite graph is coloured"}
    ELSE LET S == ToSet(e.one) T == ToSet(e.two) IN
         GClause("every vertex has one colour", S \cup T = V(g) /\ S \cap T = {} /\ IsInjective(e.one) /\ IsInjective(e.two))
         \cup GClause("ends of an edge differ", \A d \in Edges(g) : Cardinality(d \cap S) = 1)
SideFails(g, e) ==
    IF ~Bipartite(g) THEN GClause("a graph with an odd cycle has no bipartition", e.exc = "NonBipartite")
    ELSE IF e.exc # "" THEN {"a bipartite graph has a bipartition"}
    ELSE GClause("one side lists vertices once", IsInjective(e.r) /\ ToSet(e.r) \subseteq V(g))
         \cup GClause("each edge has one end on that side", \A d \in Edges(g) : Cardinality(d \cap ToSet(e.r)) = 1)
BipOrientFails(g, e) ==
    IF ~Bipartite(g) THEN GClause("a graph with an odd cycle is not oriented", e.exc = "NonBipartite")
    ELSE IF e.exc # "" THEN {"a bipartite graph is oriented"}
    ELSE IF ~RowsOK(e.r) THEN {"the orientation lists no vertex or arc twice"}
    ELSE LET o == RowsGraph(e.r)
             A == Arcs(o) IN
         GClause("every edge is directed exactly once",
             {{a[1], a[2]} : a \in A} = Edges(g) /\ Cardinality(A) = Cardinality(Edges(g)))
         \cup GClause("edges go from one side to the other", {a[1] : a \in A} \cap {a[2] : a \in A} = {})
         \cup GClause("the orientation has no foreign vertex", V(o) \subseteq V(g))
OddCoreFails(g, e) ==
    IF ~RowsOK(e.r) THEN {"the odd core lists no vertex or edge twice"}
    ELSE LET h == TLCEval(RowsGraph(e.r))
             odd == TLCEval(OddEdges(g)) IN
         GClause("the odd core has the vertices of components with odd cycles", V(h) = UNION odd)
         \cup GClause("the odd core has the edges of components with odd cycles",
                 Undirected(h) /\ Edges(h) = odd)

-----------------------------------------------------------------------------
(* Degeneracy *)
MinDeg(g, S) == Min({Cardinality(g[v] \cap S) : v \in S})
RECURSIVE GPrune(_, _, _)
GPrune(g, k, S) == LET low == {v \in S : Cardinality(g[v] \cap S) < k} IN IF low = {} THEN S ELSE GPrune(g, k, S \ low)
Core(g, k) == GPrune(g, k, V(g))
Degeneracy(g) == Max({k \in 0..Cardinality(V(g)) : k = 0 \/ Core(g, k) # {}})
\* r: pairs <<vertex, reported degree>>
RemovalFails(g, r) ==
    LET vs == [i \in 1..Len(r) |-> r[i][1]]
        left(i) == V(g) \ {vs[j] : j \in 1..(i - 1)} IN
    GClause("the removal order lists every vertex once", Len(r) = Cardinality(V(g)) /\ ToSet(vs) = V(g))
    \cup (IF Len(r) # Cardinality(V(g)) \/ ToSet(vs) # V(g) THEN {} ELSE
          GClause("a vertex of least remaining degree is removed, with that degree",
             \A i \in 1..Len(r) : LET S == left(i) IN
                 r[i][2] = Cardinality(g[vs[i]] \cap S) /\ r[i][2] = MinDeg(g, S)))
Triangles(g) == UNION {UNION {{{u, v, w} : w \in g[u] \cap g[v]} : v \in g[u]} : u \in V(g)}
DegOrientFails(g, r) ==
    IF ~RowsOK(r) THEN {"the orientation lists no vertex or arc twice"}
    ELSE LET o == RowsGraph(r) IN
         IF V(o) # V(g) \/ ~\A v \in V(o) : o[v] \subseteq V(g) THEN {"the orientation has the graph's vertices"}
         ELSE GClause("every edge is directed exactly once",
                 Edges(o) = Edges(g) /\ Cardinality(Arcs(o)) = Cardinality(Edges(g)))
              \cup GClause("the orientation is acyclic", Acyclic(o))
              \cup GClause("out-degrees are at most the degeneracy",
                      LET d == TLCEval(Degeneracy(g)) IN \A v \in V(o) : Cardinality(o[v]) <= d)

-----------------------------------------------------------------------------
(* Minimum spanning forests.  w: function from edges to weights.           *)
UpTo(h, w, k) == TLCEval([v \in V(h) |-> {x \in h[v] : w[{v, x}] <= k}])
ForestFails(g, w, r) ==
    LET T == TLCEval({{r[i][1], r[i][2]} : i \in 1..Len(r)}) IN
    GClause("tree edges are graph edges", T \subseteq Edges(g))
    \cup (IF ~(T \subseteq Edges(g)) THEN {} ELSE
      LET h == TLCEval([v \in V(g) |-> {x \in g[v] : {v, x} \in T}]) IN
      GClause("the forest connects what the graph connects", Components(h) = Components(g))
      \cup GClause("the forest has no cycle and no repeated edge", 
              Len(r) = Cardinality(V(g)) - Cardinality(Components(g)))
      \cup (IF Components(h) # Components(g) THEN {} ELSE
            \* exchange criterion: no graph edge is lighter than the heaviest forest edge between its ends
            GClause("no lighter spanning forest exists",
              \A d \in Edges(g) \ T : LET a == CHOOSE a \in d : TRUE IN
                  d \subseteq Reach(UpTo(h, w, w[d]), a))))
\* matrix wt[v][w] of recorded weights, asym: recorded weights differ by direction
MSTFails(st, e) ==
    LET g == st.g IN
    IF ~Undirected(g) THEN GClause("graphs that are not undirected are refused", e.exc # "")
    ELSE IF \E a \in Arcs(g) : st.wt[a[1]][a[2]] # st.wt[a[2]][a[1]]
         THEN GClause("inconsistent weights are refused", e.exc # "")
    ELSE IF e.exc # "" THEN {"a weighted undirected graph has a spanning forest"}
    ELSE ForestFails(g, [d \in Edges(g) |-> LET a == CHOOSE a \in d : TRUE IN st.wt[a][CHOOSE b \in d : b # a]], e.r)

-----------------------------------------------------------------------------
GFFails(st, e) ==
    LET g == st.g IN
    CASE e.op = "scc" -> StrongFails(g, e)
      [] e.op = "cond" -> CondFails(g, e.r)
      [] e.op = "color" -> ColorFails(g, e)
      [] e.op = "side" -> SideFails(g, e)
      [] e.op = "isbip" -> GClause("bipartite exactly without odd cycle", e.exc = "" /\ e.r = Bipartite(g))
      [] e.op = "biporient" -> BipOrientFails(g, e)
      [] e.op = "oddcore" -> OddCoreFails(g, e)
      [] e.op = "removal" ->
           IF ~Undirected(g) THEN GClause("graphs that are not undirected are refused", e.exc # "")
           ELSE IF e.exc # "" THEN {"every undirected graph has a removal order"} ELSE RemovalFails(g, e.r)
      [] e.op = "degen" -> GClause("degeneracy", e.exc = "" /\ e.r = Degeneracy(g))
      [] e.op = "core" -> GClause("the core is the largest subgraph of that minimum degree",
             /\ e.exc = "" /\ IsInjective(e.r)
             /\ ToSet(e.r) = Core(g, IF e.k = -1 THEN Degeneracy(g) ELSE e.k))
      [] e.op = "degorient" -> DegOrientFails(g, e.r)
      [] e.op = "triangles" ->
           LET T == [i \in 1..Len(e.r) |-> ToSet(e.r[i])] IN
           GClause("triangles are exactly those of the graph", ToSet(T) = Triangles(g))
           \cup GClause("each triangle is listed once", IsInjective(T))
      [] e.op = "mst" -> MSTFails(st, e)
      [] e.op = "raised" -> {"raised " \o e.exc}
GFApply(st, e) == st
=============================================================================

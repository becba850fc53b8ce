-------------------------------- MODULE Halin --------------------------------
(***************************************************************************)
(* Halin graphs, wheels, dual 3-trees and graphs reducible to K4 by        *)
(* collapsing triangles and shortening paths of degree-three vertices.     *)
(* Halin graphs and wheels are defined directly; the reducible classes by  *)
(* their reductions, which HalinModel shows to be confluent.               *)
(***************************************************************************)
EXTENDS Hamilton, TLC

NE(g) == Cardinality(Edges(g))
K4(g) == Cardinality(V(g)) = 4 /\ \A v \in V(g) : g[v] = V(g) \ {v}
IsCycle(h) == Cardinality(V(h)) >= 3 /\ (\A v \in V(h) : Cardinality(h[v]) = 2) /\ Connected(h)
Wheel(g) == \E c \in V(g) : g[c] = V(g) \ {c} /\ IsCycle(Induced(g, V(g) \ {c}))

\* S is the leaf set of a Halin structure
TreeOf(g, S) == [v \in V(g) |-> IF v \in S THEN g[v] \ S ELSE g[v]]
Arc(g, A) == A = {} \/ Connected(Induced(g, A))
LeafSet(g, S) ==
    LET T == TreeOf(g, S) IN
    /\ IsCycle(Induced(g, S))
    /\ \A v \in V(g) : IF v \in S THEN Cardinality(T[v]) = 1 ELSE Cardinality(T[v]) >= 3
    /\ Connected(T) /\ NE(T) = Cardinality(V(g)) - 1
    \* planarity: the leaves behind every tree edge are consecutive on the cycle
    /\ \A a \in Arcs(T) : LET cut == [T EXCEPT ![a[1]] = @ \ {a[2]}, ![a[2]] = @ \ {a[1]}] IN
                             Arc(g, Reach(cut, a[2]) \cap S)
Threes(g) == {v \in V(g) : Deg(g, v) = 3}
IsHalin(g) == LET k == NE(g) - Cardinality(V(g)) + 1 IN
    /\ k >= 3 /\ k <= Cardinality(Threes(g)) /\ Connected(g) /\ (\A v \in V(g) : Deg(g, v) >= 3)
    /\ \E S \in kSubset(k, Threes(g)) : LeafSet(g, S)

\* ------------------------------------------------------------ reductions
Outside(g, v, T) == CHOOSE x \in g[v] : x \notin T
\* triangles of degree-three vertices with three different outside neighbours, as sequences
Tris(g) == LET D == TLCEval(Threes(g)) IN
           {t \in UNION {UNION {{<<u, v, w>> : w \in {w \in g[u] \cap g[v] \cap D : w > v}} : v \in {v \in g[u] \cap D : v > u}} : u \in D} :
              /\ LET T == {t[1], t[2], t[3]} IN Cardinality({Outside(g, v, T) : v \in T}) = 3}
\* collapses the triangle into its first vertex
Collapse(g, t) == LET T == {t[1], t[2], t[3]}
                      O == {Outside(g, v, T) : v \in T} IN
    [v \in V(g) \ {t[2], t[3]} |-> IF v = t[1] THEN O ELSE IF v \in O THEN (g[v] \ T) \cup {t[1]} ELSE g[v]]
\* paths of degree-three vertices with a common neighbour: <<u, v, w, apex>>
Pths(g) == LET D == TLCEval(Threes(g)) IN
           UNION {UNION {UNION {{<<u, v, w, x>> : x \in g[u] \cap g[v] \cap g[w]} :
              w \in {w \in g[v] \cap D : u < w /\ w \notin g[u]}} : u \in g[v] \cap D} : v \in D}
Shorten(g, p) == [v \in V(g) \ {p[2]} |->
    IF v = p[1] THEN (g[v] \ {p[2]}) \cup {p[3]} ELSE IF v = p[3] THEN (g[v] \ {p[2]}) \cup {p[1]} ELSE g[v] \ {p[2]}]
RECURSIVE ReduceAll(_, _, _)
ReduceAll(g, tri, pth) ==
    LET ts == TLCEval(IF tri THEN Tris(g) ELSE {})
        ps == TLCEval(IF pth THEN Pths(g) ELSE {}) IN
    IF ts # {} THEN ReduceAll(TLCEval(Collapse(g, CHOOSE t \in ts : TRUE)), tri, pth)
    ELSE IF ps # {} THEN ReduceAll(TLCEval(Shorten(g, CHOOSE p \in ps : TRUE)), tri, pth) ELSE g
Reducible(g) == K4(ReduceAll(g, TRUE, TRUE))
Dual3Tree(g) == K4(ReduceAll(g, TRUE, FALSE))
\* the same with marking of vertices known to be leaves: collapsing three leaves and
\* shortening over a leaf are not allowed (HalinModel: every order gives IsHalin)
MarkTri(g, outer, t) == LET T == {t[1], t[2], t[3]} IN
    (outer \ T) \cup {Outside(g, v, T) : v \in T \cap outer} \cup {t[1]}
MarkPath(g, outer, p) == (outer \cup (IF Cardinality(V(g)) = 5 THEN V(g) \ {p[4]} ELSE {p[1], p[3]})) \ {p[2]}
RECURSIVE MarkedHalin(_, _)
MarkedHalin(g, outer) ==
    LET ts == TLCEval({t \in Tris(g) : ~({t[1], t[2], t[3]} \subseteq outer)})
        ps == TLCEval({p \in Pths(g) : p[4] \notin outer}) IN
    IF ts # {} THEN LET t == CHOOSE t \in ts : TRUE IN MarkedHalin(TLCEval(Collapse(g, t)), TLCEval(MarkTri(g, outer, t)))
    ELSE IF ps # {} THEN LET p == CHOOSE p \in ps : TRUE IN MarkedHalin(TLCEval(Shorten(g, p)), TLCEval(MarkPath(g, outer, p)))
    ELSE K4(g) /\ ~(V(g) \subseteq outer)

\* ---------------------------------------------------------------- events
HAFails(st, e) ==
    LET g == st.g IN
    CASE e.op = "classes" ->
            GClause("complete graph on four vertices recognised exactly", e.k4 <=> K4(g)) \cup
            GClause("wheels recognised exactly", e.wheel <=> Wheel(g)) \cup
            GClause("dual 3-trees recognised exactly", e.dual <=> Dual3Tree(g)) \cup
            GClause("reducible graphs recognised exactly", e.red <=> Reducible(g)) \cup
            GClause("Halin graphs recognised exactly", e.halin <=> IsHalin(g))
      [] e.op = "wide" ->       \* large graphs; plan: a proposed leaf set, or nothing
            GClause("complete graph on four vertices recognised exactly", e.k4 <=> K4(g)) \cup
            GClause("wheels recognised exactly", e.wheel <=> Wheel(g)) \cup
            GClause("dual 3-trees recognised exactly", e.dual <=> Dual3Tree(g)) \cup
            GClause("reducible graphs recognised exactly", e.red <=> Reducible(g)) \cup
            GClause("a graph with a Halin structure is recognised",
                    (e.plan # <<>> /\ LeafSet(g, ToSet(e.plan))) => e.halin) \cup
            GClause("Halin graphs recognised exactly", e.halin <=> MarkedHalin(g, {}))
      [] e.op = "k4" -> GClause("complete graph on four vertices recognised exactly", e.r <=> K4(g))
      [] e.op = "leaves" -> GClause("the leaf set is that of a Halin structure", IsInjective(e.r) /\ ToSet(e.r) \subseteq V(g) /\ LeafSet(g, ToSet(e.r)))
      [] e.op = "noleaves" -> GClause("a Halin graph has its leaf set returned",
                    IF Cardinality(V(g)) > 12 THEN ~MarkedHalin(g, {}) ELSE ~IsHalin(g))
      [] e.op = "ham" ->
            GClause("a graph that is not reducible is refused", Reducible(g)) \cup
            (IF ~RowsOk(g, e.r) THEN {"the result is a graph on the same vertices"}
             ELSE GClause("the result is a Hamiltonian cycle", RowEdges(e.r) \subseteq Edges(g) /\
                          IsCycle([v \in V(g) |-> {w \in V(g) : {v, w} \in RowEdges(e.r)}])))
      [] e.op = "noham" -> GClause("a reducible graph has a cycle returned", ~Reducible(g))
      [] e.op = "rebuilt" -> GClause("reconstruction reproduces the graph",
                                     Reducible(g) /\ RowsOk(g, e.r) /\ RowEdges(e.r) = Edges(g))
      [] e.op = "norebuild" -> GClause("a reducible graph is reconstructed", ~Reducible(g))
      [] e.op = "outerk4" -> GClause("outer test exact", e.r <=> (K4(g) /\ ~(V(g) \subseteq ToSet(e.s))))
      [] e.op = "refused" -> GClause("an undirected graph is accepted", ~Undirected(g))
      [] e.op = "answered" -> GClause("a graph that is not undirected is refused", Undirected(g))
      [] e.op = "same" -> GClause("the argument is left unchanged", e.r)
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
HAApply(st, e) == st
=============================================================================

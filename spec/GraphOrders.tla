---------------------------- MODULE GraphOrders ----------------------------
(***************************************************************************)
(* Breadth-first levels, lexicographic breadth-first orders, chordality    *)
(* and elimination orders.                                                 *)
(***************************************************************************)
EXTENDS Graphs

\* r: one record per level, rows <<vertex, neighbours in the next level>>
LevelsOK(g, v, r) ==
    LET L == Layers(g, v) IN
    GClause("levels are the vertices at each exact distance",
        /\ Len(r) = Len(L)
        /\ \A i \in 1..Len(r) : i <= Len(L) =>
              {r[i][j][1] : j \in 1..Len(r[i])} = L[i] /\ Len(r[i]) = Cardinality(L[i]))
    \cup GClause("each level lists all arcs to the next level and no other",
        \A i \in 1..Len(r) : \A j \in 1..Len(r[i]) :
            LET x == r[i][j][1] IN x \in V(g) =>
            /\ ToSet(r[i][j][2]) = g[x] \cap (IF i < Len(L) THEN L[i + 1] ELSE {})
            /\ IsInjective(r[i][j][2]))

IsOrder(g, o) == Len(o) = Cardinality(V(g)) /\ ToSet(o) = V(g)
\* for a before b before c with c adjacent to a and b not: something before a is adjacent to b and not to c
LexRule(g, o) == \A c \in 1..Len(o) : \A b \in 1..(c - 1) :
    \* the first position before b at which exactly one of b, c is adjacent, if any, favours b
    LET diff == {a \in 1..(b - 1) : (o[a] \in g[o[b]]) # (o[a] \in g[o[c]])}
    IN  diff # {} => o[Min(diff)] \in g[o[b]]

-----------------------------------------------------------------------------
(* Chordal graphs *)
Clique(g, S) == \A x \in S : S \ {x} \subseteq g[x]
Simplicial(g, S, v) == Clique(g, g[v] \cap S)
\* simplicial vertices lie on no hole, so all of them may go at once
RECURSIVE Eliminable(_, _)
Eliminable(g, S) == S = {} \/ LET Q == {v \in S : Simplicial(g, S, v)} IN Q # {} /\ Eliminable(g, S \ Q)
Chordal(g) == Eliminable(g, V(g))
\* the definition: no induced cycle of length four or more
Chordless(g, S) == Cardinality(S) > 3 /\ Connected(Induced(g, S)) /\ \A v \in S : Cardinality(g[v] \cap S) = 2
ChordalDef(g) == ~\E S \in SUBSET V(g) : Chordless(g, S)
PerfectElimination(g, o) == \A i \in 1..Len(o) : Clique(g, {o[j] : j \in (i + 1)..Len(o)} \cap g[o[i]])

GOFails(st, e) ==
    LET g == st.g IN
    CASE e.op = "levels" -> LevelsOK(g, e.v, e.r)
      [] e.op = "lexbfs" -> GClause("the order lists every vertex once", IsOrder(g, e.r))
             \cup (IF IsOrder(g, e.r) THEN GClause("lexicographic rule", LexRule(g, e.r)) ELSE {})
      [] e.op = "chordal" ->
             IF ~Undirected(g) THEN GClause("graphs that are not undirected are refused", e.exc # "")
             ELSE GClause("chordality", e.exc = "" /\ e.r = Chordal(g))
      [] e.op = "peo" -> 
             IF ~Chordal(g) THEN GClause("no elimination order for a graph that is not chordal", e.exc # "")
             ELSE GClause("a chordal graph has an elimination order", e.exc = "")
                  \cup (IF e.exc # "" THEN {} ELSE
                        GClause("the order lists every vertex once", IsOrder(g, e.r))
                        \cup (IF IsOrder(g, e.r) THEN GClause("later neighbours form a clique", PerfectElimination(g, e.r)) ELSE {}))
      [] e.op = "raised" -> {"raised " \o e.exc}
GOApply(st, e) == st
=============================================================================

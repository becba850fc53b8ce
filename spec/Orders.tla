------------------------------- MODULE Orders -------------------------------
(***************************************************************************)
(* Acyclic graphs and partial orders: topological orders, transitive       *)
(* closure, reachability, minimum path and chain covers, antichains.       *)
(* Optimality is judged through certificates supplied with the event: a    *)
(* set of vertices covering every arc bounds path covers from below, an    *)
(* antichain bounds chain covers from below, and a chain cover bounds      *)
(* antichains from above.  DilworthModel shows that the bounds are met.    *)
(***************************************************************************)
EXTENDS Graphs

IsTopo(g, L) == /\ Len(L) = Cardinality(V(g)) /\ ToSet(L) = V(g)
                /\ \A i \in 1..Len(L) : g[L[i]] \cap {L[k] : k \in 1..i} = {}
Closure(g) == [v \in V(g) |-> Reach(g, v) \ {v}]
RowsAre(g, rows) == /\ Len(rows) = Cardinality(V(g))
                    /\ \A r \in ToSet(rows) : r[1] \in V(g) /\ IsInjective(r[2])
                    /\ IsInjective([i \in 1..Len(rows) |-> rows[i][1]])
                    /\ \A r \in ToSet(rows) : ToSet(r[2]) = g[r[1]]

\* a partition of the vertices into sequences following the arcs of h
IsCover(h, paths) ==
    /\ FoldLeft(LAMBDA a, p : a + Len(p), 0, paths) = Cardinality(V(h))
    /\ UNION {ToSet(p) : p \in ToSet(paths)} = V(h)
    /\ \A p \in ToSet(paths) : Len(p) > 0 /\ \A i \in 1..(Len(p) - 1) : p[i] \in V(h) /\ p[i + 1] \in h[p[i]]
\* tails S and heads T touching every arc: no matching of tails to heads is larger
Touches(h, S, T) == \A v \in V(h) : v \in S \/ h[v] \subseteq T
Antichain(h, A) == A \subseteq V(h) /\ \A v \in A : h[v] \cap A = {}        \* h transitively closed

ORFails(st, e) ==
    LET g == st.g IN
    CASE e.op = "acyclic" -> GClause("acyclic exactly without directed cycles", e.r <=> Acyclic(g))
      [] e.op = "topo" -> GClause("order given only for acyclic graphs", Acyclic(g)) \cup
                          (IF Acyclic(g) THEN GClause("every edge points forward", IsTopo(g, e.r)) ELSE {})
      [] e.op = "notopo" -> GClause("an acyclic graph is ordered", ~Acyclic(g))
      [] e.op = "istopo" -> GClause("order checker exact", e.r <=> (IsTopo(g, e.l)))
      [] e.op = "closure" -> GClause("closure exact", RowsAre(Closure(g), e.r))
      [] e.op = "reach" -> GClause("reachability only for acyclic graphs", Acyclic(g)) \cup
                           GClause("reachability exact", Len(e.r) = Cardinality(V(g)) /\
                              \A v \in V(g) : LET R == Reach(g, v) IN \A w \in V(g) : e.r[v][w] <=> w \in R)
      [] e.op = "noreach" -> GClause("an acyclic graph is accepted", ~Acyclic(g))
      [] e.op = "paths" ->
            IF ~IsCover(g, e.r) THEN {"paths partition the vertices and follow edges"}
            ELSE IF ~Touches(g, ToSet(e.s), ToSet(e.t)) THEN {"HINT path bound"}
            ELSE GClause("fewest paths", Len(e.r) <= Cardinality(V(g)) - Len(e.s) - Len(e.t))
      [] e.op = "chains" ->
            IF ~IsCover(Closure(g), e.r) THEN {"chains partition the vertices and follow the order"}
            ELSE IF ~Antichain(Closure(g), ToSet(e.a)) THEN {"HINT antichain"}
            ELSE GClause("fewest chains", Len(e.r) <= Cardinality(ToSet(e.a)))
      [] e.op = "antichain" ->
            IF ~IsInjective(e.r) \/ ~Antichain(Closure(g), ToSet(e.r)) THEN {"pairwise unreachable vertices"}
            ELSE IF ~IsCover(Closure(g), e.c) THEN {"HINT chain cover"}
            ELSE GClause("largest antichain", Len(e.r) >= Len(e.c))
      [] e.op = "noanti" -> GClause("an acyclic graph is accepted", ~Acyclic(g))
      [] e.op = "traced" ->      \* g has in- and out-degree at most one
            GClause("traced paths follow edges and cover", IsCover(g, e.r)) \cup
            GClause("traced paths are whole", Len(e.r) = Cardinality(V(g)) - Cardinality(Arcs(g)))
      [] e.op = "same" -> GClause("the argument is left unchanged", e.r)
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
ORApply(st, e) == st
=============================================================================

------------------------------ MODULE Matching ------------------------------
(***************************************************************************)
(* Matchings in bipartite and general graphs, with certificates of         *)
(* optimality: a matching and an independent set whose sizes add up to the *)
(* number of vertices (Koenig), and a barrier (Tutte-Berge).               *)
(***************************************************************************)
EXTENDS Graphs

-----------------------------------------------------------------------------
(* Bipartite: g maps each left vertex to its right neighbours (separate    *)
(* numbering); the right side is every vertex that occurs as a neighbour.  *)
Right(g) == UNION {g[u] : u \in V(g)}
\* a matching as a function from matched right vertices to left vertices
IsMatching(g, m) == /\ \A v \in DOMAIN m : m[v] \in V(g) /\ (m[v] \in V(g) => v \in g[m[v]])
                    /\ \A v, w \in DOMAIN m : m[v] = m[w] => v = w
Independent(g, A, B) == \A u \in A : g[u] \cap B = {}
Certifies(g, m, A, B) == /\ A \subseteq V(g) /\ B \subseteq Right(g) /\ Independent(g, A, B)
                         /\ Cardinality(A) + Cardinality(B) + Cardinality(DOMAIN m) = Cardinality(V(g)) + Cardinality(Right(g))
Perfect(g, m) == /\ IsMatching(g, m) /\ Cardinality(DOMAIN m) = Cardinality(V(g)) /\ DOMAIN m = Right(g)
\* given one perfect matching m: left vertices reachable by alternating steps
AltGraph(g, m) == [u \in V(g) |-> {m[v] : v \in g[u]}]
\* edges <<u, v>> in some perfect matching: matched, or on an alternating cycle
Allowed(g, m) == LET R == ReachAll(AltGraph(g, m)) IN
    {e \in UNION {{<<u, v>> : v \in g[u]} : u \in V(g)} : m[e[2]] = e[1] \/ e[1] \in R[m[e[2]]]}

PairsMap(r) == [v \in {r[i][1] : i \in 1..Len(r)} |-> r[CHOOSE i \in 1..Len(r) : r[i][1] = v][2]]
BipFails(g, e) ==
    LET m == PairsMap(e.m)
        A == ToSet(e.a)
        B == ToSet(e.b) IN
    GClause("matched pairs are edges and no vertex is matched twice",
            IsInjective([i \in 1..Len(e.m) |-> e.m[i][1]]) /\ IsMatching(g, m))
    \cup GClause("the two parts list vertices once", IsInjective(e.a) /\ IsInjective(e.b) /\ A \subseteq V(g) /\ B \subseteq Right(g))
    \cup GClause("the two parts are independent", A \subseteq V(g) => Independent(g, A, B))
    \cup GClause("matching and independent set are optimal",
            Cardinality(A) + Cardinality(B) + Cardinality(DOMAIN m) = Cardinality(V(g)) + Cardinality(Right(g)))
\* e.r rows <<u, <<v...>>>>; e.why rows <<u, v, <<rows u', v's>>>>
ImperfFails(g, m, e) ==
    LET all == UNION {{<<u, v>> : v \in g[u]} : u \in V(g)}
        got == UNION {{<<e.r[i][1], e.r[i][2][j]>> : j \in 1..Len(e.r[i][2])} : i \in 1..Len(e.r)} IN
    IF ~Perfect(g, m)      \* m is a maximum matching, so there is no perfect one
    THEN GClause("without a perfect matching every edge is reported", got = all)
    ELSE LET ok == Allowed(g, m) IN
         GClause("exactly the edges in no perfect matching are reported", got = all \ ok)
         \cup GClause("an explanation is a closed part with the edge's right end and without its left end",
              \A i \in 1..Len(e.why) :
                LET rows == e.why[i][3]
                    U == {rows[j][1] : j \in 1..Len(rows)}
                    W == UNION {ToSet(rows[j][2]) : j \in 1..Len(rows)} IN
                /\ U \subseteq V(g) /\ e.why[i][2] \in W /\ e.why[i][1] \notin U
                /\ Cardinality(U) = Cardinality(W)
                /\ \A j \in 1..Len(rows) : rows[j][1] \in V(g) => ToSet(rows[j][2]) = g[rows[j][1]] \cap W
                /\ \A a \in ok : (a[1] \in U) = (a[2] \in W))

-----------------------------------------------------------------------------
(* General graphs: a matching is a function from matched vertices to their *)
(* mates.                                                                  *)
IsMates(g, m) == \A v \in DOMAIN m : v \in V(g) /\ m[v] \in DOMAIN m /\ (v \in V(g) => m[v] \in g[v]) /\ (m[v] \in DOMAIN m => m[m[v]] = v)
Odd(g, S) == Cardinality({c \in Components(Induced(g, V(g) \ S)) : Cardinality(c) % 2 = 1})
\* the barrier S leaves at least this many vertices unmatched in any matching
Deficit(g, S) == Odd(g, S) - Cardinality(S)
Maximal(g, m) == \A v \in V(g) \ DOMAIN m : g[v] \subseteq DOMAIN m
MatesFails(g, e) ==
    LET m == PairsMap(e.m) IN
    GClause("the matching is symmetric, along edges, one mate each",
            IsInjective([i \in 1..Len(e.m) |-> e.m[i][1]]) /\ IsMates(g, m))
    \cup GClause("initially matched vertices stay matched", ToSet(e.keep) \subseteq DOMAIN m)
GeneralFails(g, e) ==
    MatesFails(g, e)
    \cup GClause("recorder sent a barrier", ToSet(e.s) \subseteq V(g))
    \cup GClause("the matching is maximum", Cardinality(V(g)) - Len(e.m) <= Deficit(g, ToSet(e.s)))
GreedyFails(g, e) == MatesFails(g, e) \cup GClause("the greedy matching is maximal", Maximal(g, PairsMap(e.m)))

-----------------------------------------------------------------------------
(* st.m: the bipartite matching found, used to judge the edge analysis     *)
MAFails(st, e) ==
    CASE e.op = "bip" -> BipFails(st.g, e)
      [] e.op = "imperf" -> ImperfFails(st.g, st.m, e)
      [] e.op = "general" -> GeneralFails(st.g, e)
      [] e.op = "greedy" -> GreedyFails(st.g, e)
      [] e.op = "same" -> GClause("arguments are unchanged", e.r)
      [] e.op = "raised" -> {"raised " \o e.exc}
MAApply(st, e) == IF e.op = "bip" THEN [st EXCEPT !.m = PairsMap(e.m)] ELSE st
=============================================================================

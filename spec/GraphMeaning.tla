---------------------------- MODULE GraphMeaning ----------------------------
(***************************************************************************)
(* On every N-vertex undirected graph, the efficient characterisations     *)
(* used for judging agree with the plain definitions: bipartite, odd core, *)
(* degeneracy, cores.  Emits the graphs.                                   *)
(***************************************************************************)
EXTENDS GraphFacts, TLC, Json, IOUtils
CONSTANT N
VARIABLE g
Init == /\ g \in AllGraphs(N)
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson(JG(g))) ELSE TRUE
Spec == Init /\ [][UNCHANGED g]_g
Of(F) == [v \in V(g) |-> {w \in g[v] : {v, w} \in F}]
Cycles == {F \in SUBSET Edges(g) : F # {} /\ LET h == Of(F) S == UNION F IN
             (\A v \in S : Cardinality(h[v]) = 2) /\ Connected(Induced(h, S))}
OddCycles == {F \in Cycles : Cardinality(F) % 2 = 1}
TwoColour == /\ Bipartite(g) = (OddCycles = {})
             /\ Bipartite(g) = \E S \in SUBSET V(g) : \A e \in Edges(g) : Cardinality(e \cap S) = 1
OddPart == OddEdges(g) = UNION OddCycles
Degen == /\ Degeneracy(g) = Max({MinDeg(g, S) : S \in SUBSET V(g) \ {{}}})
         /\ \A k \in 0..N : Core(g, k) = UNION {S \in SUBSET V(g) \ {{}} : MinDeg(g, S) >= k}
=============================================================================

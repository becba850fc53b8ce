---------------------------- MODULE KruskalModel ----------------------------
(***************************************************************************)
(* Kruskal's algorithm with ties broken any way, on every weighted graph   *)
(* on N vertices with weights 1..W: the result passes the judging test,    *)
(* and the judging test accepts only forests of least total weight.        *)
(***************************************************************************)
EXTENDS GraphFacts, TLC, Json, IOUtils
CONSTANTS N, W
Pairs == {e \in SUBSET (1..N) : Cardinality(e) = 2}
VARIABLES w, g, left, tree, part
vars == <<w, g, left, tree, part>>
Init == /\ \E E \in SUBSET Pairs : w \in [E -> 1..W]
        /\ g = [v \in 1..N |-> {x \in 1..N : x # v /\ {v, x} \in DOMAIN w}]
        /\ left = DOMAIN w /\ tree = <<>> /\ part = {{v} : v \in 1..N}
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson([i \in 1..N |-> [j \in 1..N |->
              IF i # j /\ {i, j} \in DOMAIN w THEN w[{i, j}] ELSE 0]])) ELSE TRUE
Take(e) == /\ e \in left /\ \A f \in left : w[e] <= w[f]
           /\ left' = left \ {e} /\ UNCHANGED <<w, g>>
           /\ IF \E b \in part : e \subseteq b THEN UNCHANGED <<tree, part>>
              ELSE LET hit == {b \in part : b \cap e # {}} IN
                   /\ part' = (part \ hit) \cup {UNION hit}
                   /\ tree' = Append(tree, SetToSeq(e))
Next == \E e \in left : Take(e)
Spec == Init /\ [][Next]_vars
Partial == part = Components([v \in 1..N |-> {x \in 1..N : x # v /\ {v, x} \in {ToSet(tree[i]) : i \in 1..Len(tree)}}])
Right == left = {} => ForestFails(g, w, tree) = {}
Weight(T) == FoldSet(LAMBDA e, a : a + w[e], 0, T)
\* at the start: every edge set the judge accepts has the least weight of all spanning edge sets
Judge == left = DOMAIN w /\ tree = <<>> =>
    LET S == {T \in SUBSET DOMAIN w : Components([v \in 1..N |-> {x \in g[v] : {v, x} \in T}]) = Components(g)}
        m == Min({Weight(T) : T \in S}) IN
    \A T \in S : (ForestFails(g, w, SetToSeq({SetToSeq(e) : e \in T})) = {}) = (Weight(T) = m)
=============================================================================

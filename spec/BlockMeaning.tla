---------------------------- MODULE BlockMeaning ----------------------------
(***************************************************************************)
(* On every N-vertex graph, the separation meaning of blocks used to judge *)
(* the code agrees with the cycle definition: two edges are in one block   *)
(* iff they are equal or lie on a common cycle; and a graph is biconnected *)
(* iff it is connected with at most one block.  Emits the graphs.          *)
(***************************************************************************)
EXTENDS Biconnected, TLC, Json, IOUtils
CONSTANT N
VARIABLE g
Init == /\ g \in AllGraphs(N)
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson(JG(g))) ELSE TRUE
Spec == Init /\ [][UNCHANGED g]_g
Of(F) == [v \in V(g) |-> {w \in g[v] : {v, w} \in F}]
Cycles == {F \in SUBSET Edges(g) : F # {} /\ LET h == Of(F) S == UNION F IN
             (\A v \in S : Cardinality(h[v]) = 2) /\ Connected(Induced(h, S))}
Meaning == LET C == Cycles IN
    BlockEdges(g) = {{f \in Edges(g) : f = e \/ \E F \in C : e \in F /\ f \in F} : e \in Edges(g)}
Two == Biconn(g) = (Connected(g) /\ Cardinality(BlockEdges(g)) <= 1)
=============================================================================

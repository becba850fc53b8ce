----------------------------- MODULE BergeModel -----------------------------
(***************************************************************************)
(* General matching by augmenting paths, any path each time, from any      *)
(* matching, on every N-vertex graph.  When no augmenting path is left the *)
(* matching meets the bound of some barrier, and no barrier's bound is     *)
(* ever beaten: the certificate used to judge the code is exact.  A vertex *)
(* once matched stays matched.  Emits graphs with a starting matching.     *)
(***************************************************************************)
EXTENDS Matching, TLC, Json, IOUtils
CONSTANT N
VARIABLES g, m, m0
vars == <<g, m, m0>>
RECURSIVE AllM(_, _)
AllM(gr, S) ==   \* matchings (sets of edges) inside S
    IF S = {} THEN {{}}
    ELSE LET v == CHOOSE v \in S : TRUE IN
         AllM(gr, S \ {v}) \cup UNION {{{{v, w}} \cup M : M \in AllM(gr, S \ {v, w})} : w \in gr[v] \cap S}
Covered(M) == UNION M
Init == /\ g \in AllGraphs(N) /\ m \in AllM(g, V(g)) /\ m0 = m
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson([g |-> JG(g), m |-> SetToSeq({SetToSeq(e) : e \in m})])) ELSE TRUE
\* alternating simple paths from an unmatched vertex, ending after an unmatched edge
RECURSIVE Aug(_)
Aug(p) == LET x == p[Len(p)] IN
    UNION {IF y \notin Covered(m) THEN {Append(p, y)}
           ELSE LET z == CHOOSE z \in V(g) : {y, z} \in m IN
                IF z \in ToSet(p) THEN {} ELSE Aug(p \o <<y, z>>)
           : y \in {y \in g[x] \ ToSet(p) : {x, y} \notin m}}
Paths == UNION {Aug(<<v>>) : v \in V(g) \ Covered(m)}
Flip(p) == LET E == {{p[i], p[i + 1]} : i \in 1..(Len(p) - 1)} IN (m \ E) \cup (E \ m)
Next == \E p \in Paths : m' = Flip(p) /\ UNCHANGED <<g, m0>>
Spec == Init /\ [][Next]_vars
Bound == Max({Deficit(g, S) : S \in SUBSET V(g)})
Sound == N - 2 * Cardinality(m) >= Bound
Exact == Paths = {} => N - 2 * Cardinality(m) = Bound
Stay == Covered(m0) \subseteq Covered(m)
=============================================================================

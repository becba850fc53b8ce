---------------------------- MODULE TwoSatModel ----------------------------
(***************************************************************************)
(* Limited backtracking for two-satisfiability: pick any unassigned        *)
(* literal, set it with everything it implies, keep the assignment unless  *)
(* it is contradictory, in which case the opposite literal is tried.  For  *)
(* every instance over N variables with at most K implications, the search *)
(* fails exactly when no assignment works, the reachability test and the   *)
(* forced literals agree with searching all assignments.                   *)
(***************************************************************************)
EXTENDS TwoSat, TLC, Json, IOUtils
CONSTANTS N, K
VARIABLES imps, val, failed
vars == <<imps, val, failed>>
X == 1..N
AllImps == {<<a, b>> : a \in Lits(X), b \in Lits(X)} \ {<<a, a>> : a \in Lits(X)}
Small == UNION {kSubset(k, AllImps) : k \in 0..K}
Init == /\ imps \in Small /\ val = {} /\ failed = FALSE
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson(imps)) ELSE TRUE
G == ImpGraph(X, imps)
Clash(S) == \E a \in S : -a \in S
Try(a) == val \cup Reach(G, a)
Next == /\ ~failed
        /\ \E a \in Lits(X) \ (val \cup {-b : b \in val}) :
              /\ val' = IF ~Clash(Try(a)) THEN Try(a) ELSE IF ~Clash(Try(-a)) THEN Try(-a) ELSE val
              /\ failed' = (Clash(Try(a)) /\ Clash(Try(-a)))
              /\ UNCHANGED imps
Spec == Init /\ [][Next]_vars
Answer == /\ failed => Models(X, imps) = {}
          /\ (~failed /\ Cardinality(val) = N) => [x \in X |-> x \in val] \in Models(X, imps)
\* what was set so far can always be completed if anything can
Safe == Models(X, imps) # {} => \E f \in Models(X, imps) : \A a \in val : Holds(f, a)
Meaning == val = {} =>
    /\ Sat(X, imps) <=> Models(X, imps) # {}
    /\ Sat(X, imps) => ForcedTrue(X, imps) = {a \in Lits(X) : \A f \in Models(X, imps) : Holds(f, a)}
=============================================================================

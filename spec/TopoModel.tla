------------------------------ MODULE TopoModel ------------------------------
(***************************************************************************)
(* Depth-first search of every N-vertex digraph, choosing roots and        *)
(* neighbours in any order, building the reversed finishing order and      *)
(* bit-set reachability on top of it.  The finished order is topological   *)
(* exactly when the graph has no directed cycle, and then combining the    *)
(* neighbours' reach sets from the back gives exact reachability.          *)
(***************************************************************************)
EXTENDS Orders, TLC, Json, IOUtils
CONSTANTS N, Loops
VARIABLES g, stack, seen, order
vars == <<g, stack, seen, order>>
Init == /\ g \in AllDigraphs(N, Loops) /\ stack = <<>> /\ seen = {} /\ order = <<>>
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson(JG(g))) ELSE TRUE
Top == stack[Len(stack)]
Next == \/ stack = <<>> /\ \E v \in V(g) \ seen : stack' = <<v>> /\ seen' = seen \cup {v} /\ UNCHANGED <<g, order>>
        \/ stack # <<>> /\ \E w \in g[Top] \ seen : stack' = Append(stack, w) /\ seen' = seen \cup {w} /\ UNCHANGED <<g, order>>
        \/ stack # <<>> /\ g[Top] \subseteq seen /\ order' = <<Top>> \o order
           /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<g, seen>>
Spec == Init /\ [][Next]_vars
Done == seen = V(g) /\ stack = <<>>
TopoIff == Done => (IsTopo(g, order) <=> Acyclic(g))
FromBack == LET step(r, v) == [r EXCEPT ![v] = {v} \cup UNION {r[w] : w \in g[v]}]
            IN FoldRight(LAMBDA v, r : step(r, v), order, [v \in V(g) |-> {}])
ReachExact == (Done /\ Acyclic(g)) => FromBack = ReachAll(g)
=============================================================================

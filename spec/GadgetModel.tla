----------------------------- MODULE GadgetModel -----------------------------
(***************************************************************************)
(* The gadget that forbids repeating a label at a vertex.  Labels are put  *)
(* in groups of two or three; within a group every label leads to every    *)
(* other, and while more than one group remains each group becomes a label *)
(* of the next round (its members lead into it, it leads out to them).     *)
(* Any grouping may be chosen in each round.  For every number of labels   *)
(* up to N, when the construction ends, label a leads to label b exactly   *)
(* when a and b differ, and no label is left alone in a round.             *)
(***************************************************************************)
EXTENDS Graphs, TLC
CONSTANT N
VARIABLES k, todo, arcs, fresh, alone
vars == <<k, todo, arcs, fresh, alone>>
\* nodes <<label, TRUE>> (arriving) and <<label, FALSE>> (leaving)
RECURSIVE Groupings(_)
Groupings(S) == IF S = {} THEN {{}}
    ELSE LET x == Min(S) IN
         UNION {{ {T} \cup R : R \in Groupings(S \ T)} :
                T \in {T \in SUBSET S : x \in T /\ Cardinality(T) \in {2, 3}}}
Init == k \in 1..N /\ todo = 1..k /\ arcs = {} /\ fresh = k + 1 /\ alone = FALSE
Inside(P) == UNION {{<<<<a, TRUE>>, <<b, FALSE>>>> : a \in T, b \in T} : T \in P} \ {<<<<a, TRUE>>, <<a, FALSE>>>> : a \in todo}
Step(P) == LET Q == SetToSeq(P)
               num == [i \in 1..Len(Q) |-> fresh + i - 1]
               up == UNION {{<<<<a, TRUE>>, <<num[i], TRUE>>>> : a \in Q[i]} : i \in 1..Len(Q)}
               down == UNION {{<<<<num[i], FALSE>>, <<a, FALSE>>>> : a \in Q[i]} : i \in 1..Len(Q)} IN
           IF Len(Q) = 1 THEN /\ arcs' = arcs \cup Inside(P) /\ todo' = {} /\ fresh' = fresh
           ELSE /\ arcs' = arcs \cup Inside(P) \cup up \cup down
                /\ todo' = {num[i] : i \in 1..Len(Q)} /\ fresh' = fresh + Len(Q)
Next == /\ todo # {} /\ k' = k
        /\ IF Cardinality(todo) = 1 THEN todo' = {} /\ alone' = (alone \/ k > 1) /\ UNCHANGED <<arcs, fresh>>
           ELSE \E P \in Groupings(todo) : Step(P) /\ alone' = alone
Spec == Init /\ [][Next]_vars
Nodes == {x[1] : x \in arcs} \cup {x[2] : x \in arcs} \cup {<<a, b>> : a \in 1..k, b \in BOOLEAN}
Gr == [x \in Nodes |-> {y[2] : y \in {z \in arcs : z[1] = x}}]
Exact == todo = {} => \A a, b \in 1..k : (<<b, FALSE>> \in Reach(Gr, <<a, TRUE>>)) <=> a # b
NotAlone == ~alone
=============================================================================

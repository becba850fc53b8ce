----------------------------- MODULE FamilyModel -----------------------------
(***************************************************************************)
(* The families drawn edge by edge from their definitions: every fair      *)
(* choice of parameters ends in a simple cubic graph, and the named        *)
(* members have their order, girth, diameter and sides.                    *)
(***************************************************************************)
EXTENDS GraphTools
CONSTANT N
VARIABLES f, todo, drawn
vars == <<f, todo, drawn>>
Chords(m) == {l \in [1..m -> -7..7] : TRUE}
Params == {[kind |-> "petersen", n |-> n, k |-> k] : n \in 3..N, k \in 1..N}
     \cup {[kind |-> "coxeter", n |-> n, a |-> a, b |-> b] : n \in 3..N, a \in 1..4, b \in 1..4}
     \cup {[kind |-> "cycles", n |-> n] : n \in 3..4}
     \cup {[kind |-> "lcf", l |-> l, n |-> n] : l \in Chords(1) \cup Chords(2), n \in 1..N}
Great == {<<"petersen", PetersenOf(5, 2)>>, <<"desargues", PetersenOf(10, 3)>>, <<"coxeter", CoxeterOf(7, 2, 3)>>,
          <<"mcgee", LcfOf(<<-12, 7, -7>>, 8)>>, <<"dyck", LcfOf(<<5, -5, 13, -13>>, 8)>>,
          <<"pappus", LcfOf(<<5, 7, -7, 7, -7, -5>>, 3)>>, <<"tutte", LcfOf(<<-13, -9, 7, -7, 9, 13>>, 5)>>,
          <<"gray", LcfOf(<<-25, 7, -7, 13, -13, 25>>, 9)>>}
Init == /\ f \in {p \in Params : Fair(p)} /\ drawn = {}
        /\ todo = {p \in Family(f).a : p[1] < p[2]}
Next == todo # {} /\ LET p == CHOOSE q \in todo : TRUE IN
        todo' = todo \ {p} /\ drawn' = drawn \cup {p} /\ f' = f
Spec == Init /\ [][Next]_vars
Small == \A x \in {p[1] : p \in drawn} \cup {p[2] : p \in drawn} : Cardinality({p \in drawn : x \in {p[1], p[2]}}) <= 3
Ends == todo = {} => Cubic(Graph(Cardinality(Family(f).v), drawn)) /\ 2 * Cardinality(drawn) = 3 * Cardinality(Family(f).v)
ASSUME \A g \in Great : Signature(g[2]) = Named[g[1]]
=============================================================================

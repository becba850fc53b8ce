------------------------------ MODULE ElimModel ------------------------------
(***************************************************************************)
(* Turning an automaton into an expression by eliminating its states one   *)
(* at a time, in any order: the expression left between the artificial     *)
(* first and last states denotes the automaton's language.  Run on every   *)
(* N-state automaton with K symbols.  Emits the automata.                  *)
(***************************************************************************)
EXTENDS Automata, TLC, Json, IOUtils
CONSTANTS N, K
Al == SubSeq(<<"a", "b", "c">>, 1, K)
VARIABLES a, x, left      \* x[p][q]: expression from p to q, Bad if none
vars == <<a, x, left>>
Q == 1..N
All == 0..(N + 1)         \* 0 first, N+1 last
Plus(u, v) == IF u = Bad THEN v ELSE IF v = Bad THEN u ELSE Alt(u, v)
Edge(p, q) == FoldLeft(LAMBDA u, c : IF q \in a.d[p][c] THEN Plus(u, Sym(Al[c])) ELSE u, Bad, [c \in 1..K |-> c])
Init == /\ a \in [n : {N}, init : SUBSET Q, final : SUBSET Q, d : [Q -> [1..K -> SUBSET Q]]]
        /\ x = [p \in All |-> [q \in All |->
                 IF p = 0 THEN (IF q \in a.init THEN Eps ELSE Bad)
                 ELSE IF p = N + 1 THEN Bad
                 ELSE IF q = N + 1 THEN (IF p \in a.final THEN Eps ELSE Bad)
                 ELSE IF q = 0 THEN Bad ELSE Edge(p, q)]]
        /\ left = Q
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson([n |-> N, init |-> SetToSeq(a.init), final |-> SetToSeq(a.final),
              d |-> [q \in Q |-> [c \in 1..K |-> SetToSeq(a.d[q][c])]]])) ELSE TRUE
Eliminate(s) ==
    /\ left' = left \ {s} /\ UNCHANGED a
    /\ x' = [p \in All |-> [q \in All |->
              IF p = s \/ q = s \/ x[p][s] = Bad \/ x[s][q] = Bad THEN x[p][q]
              ELSE LET loop == IF x[s][s] = Bad THEN Eps ELSE Star(x[s][s])
                   IN  Plus(Cat(x[p][s], Cat(loop, x[s][q])), x[p][q])]]
Next == \E s \in left : Eliminate(s)
Spec == Init /\ [][Next]_vars
Correct == left = {} =>
    LET e == x[0][N + 1]
        L == Lang(a, K)
    IN  IF e = Bad THEN LEmpty(L) ELSE Lang(FromExpr(e, Al), K) = L
=============================================================================

------------------------------ MODULE DuvalModel -----------------------------
(***************************************************************************)
(* Generation: repeat the word to the full length, drop trailing top       *)
(* letters, raise the last letter.  Every step goes from a Lyndon word to  *)
(* the next one in the dictionary, and the counting formula counts them.   *)
(***************************************************************************)
EXTENDS Lyndon
CONSTANTS S, N
VARIABLES s, n, w, made
vars == <<s, n, w, made>>
Init == s \in 1..S /\ n \in 1..N /\ w = <<0>> /\ made = 1
Grown == [i \in 1..n |-> w[((i - 1) % Len(w)) + 1]]
Keep == LET k == {i \in 1..n : Grown[i] # s - 1} IN IF k = {} THEN <<>> ELSE SubSeq(Grown, 1, Max(k))
Next == /\ Keep # <<>>
        /\ w' = [Keep EXCEPT ![Len(Keep)] = @ + 1] /\ made' = made + 1 /\ UNCHANGED <<s, n>>
Spec == Init /\ [][Next]_vars
All == UNION {LynSet(s, k) : k \in 1..n}
IsOne == w \in All
Counted == Keep = <<>> => made = FoldSet(LAMBDA k, a : a + LynCount(s, k), 0, 1..n)
Formula == made = 1 => \A k \in 1..n : LynCount(s, k) = Cardinality(LynSet(s, k))
Rises == [][LexLess(w, w') /\ \A v \in All : ~(LexLess(w, v) /\ LexLess(v, w'))]_vars
=============================================================================

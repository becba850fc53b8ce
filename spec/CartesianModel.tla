---------------------------- MODULE CartesianModel ---------------------------
(***************************************************************************)
(* The stack scan that finds nearest smaller values on both sides, ties    *)
(* broken by position; the tree whose parents are the larger of the two    *)
(* has every range minimum as the deepest common ancestor of the range's   *)
(* ends.  Every short sequence of small values.                            *)
(***************************************************************************)
EXTENDS Ancestors, Json, IOUtils
CONSTANTS N, Val
VARIABLES s, back, at, stack, near
vars == <<s, back, at, stack, near>>
\* near[b][i]: position of the nearest smaller element, 0 if none; back = scanning from the right
Less(i, j) == s[i] < s[j] \/ (s[i] = s[j] /\ i < j)
Init == /\ s \in UNION {[1..n -> 1..Val] : n \in 1..N}
        /\ back = FALSE /\ at = 1 /\ stack = <<>> /\ near = [b \in BOOLEAN |-> <<>>]
Scanning == at \in 1..Len(s)
Pop == Scanning /\ (IF stack = <<>> THEN FALSE ELSE Less(at, Last(stack))) /\ stack' = Front(stack) /\ UNCHANGED <<s, back, at, near>>
Push == /\ Scanning /\ (IF stack = <<>> THEN TRUE ELSE ~Less(at, Last(stack)))
        /\ LET v == IF stack = <<>> THEN 0 ELSE Last(stack) IN
           near' = [near EXCEPT ![back] = IF back THEN <<v>> \o @ ELSE Append(@, v)]
        /\ stack' = Append(stack, at) /\ at' = (IF back THEN at - 1 ELSE at + 1) /\ UNCHANGED <<s, back>>
Turn == ~back /\ at = Len(s) + 1 /\ back' = TRUE /\ at' = Len(s) /\ stack' = <<>> /\ UNCHANGED <<s, near>>
Next == Pop \/ Push \/ Turn
Spec == Init /\ [][Next]_vars
Done == back /\ at = 0
Parent(i) == LET l == near[FALSE][i]  r == near[TRUE][i] IN
             IF l = 0 THEN r ELSE IF r = 0 THEN l ELSE IF Less(l, r) THEN r ELSE l
Tree == [i \in 1..Len(s) |-> Parent(i)]
Ordered == \A k \in 1..(Len(stack) - 1) : Less(stack[k], stack[k + 1])
Exact == Done => /\ IsTree(Tree)
                 /\ \A i \in 1..Len(s) : \A j \in i..Len(s) : s[Common(Tree, <<i, j>>)] = MinIn(s, i - 1, j)
Emit == IF IOEnv.EMIT = "1" /\ Done THEN PrintT("GEN " \o ToJson([s |-> s])) ELSE TRUE
=============================================================================

------------------------------- MODULE LcsModel ------------------------------
(***************************************************************************)
(* Walking back through the table of lengths, dropping elements while the  *)
(* length stays and matching when it has to fall, in any order; the table  *)
(* itself against all subsets of positions.                                *)
(***************************************************************************)
EXTENDS Subseq, Json, IOUtils
CONSTANTS N, Val
VARIABLES a, b, i, j, out
vars == <<a, b, i, j, out>>
Words == UNION {[1..n -> 1..Val] : n \in 0..N}
Init == a \in Words /\ b \in Words /\ i = Len(a) /\ j = Len(b) /\ out = <<>>
T == LcsTable(a, b)
Len2(x, y) == T[x + 1][y + 1]
DropA == i > 0 /\ Len2(i, j) > 0 /\ Len2(i - 1, j) = Len2(i, j) /\ i' = i - 1 /\ UNCHANGED <<a, b, j, out>>
DropB == j > 0 /\ Len2(i, j) > 0 /\ Len2(i, j - 1) = Len2(i, j) /\ j' = j - 1 /\ UNCHANGED <<a, b, i, out>>
Match == /\ i > 0 /\ j > 0 /\ Len2(i - 1, j) < Len2(i, j) /\ Len2(i, j - 1) < Len2(i, j)
         /\ out' = <<a[i]>> \o out /\ i' = i - 1 /\ j' = j - 1 /\ UNCHANGED <<a, b>>
Next == DropA \/ DropB \/ Match
Spec == Init /\ [][Next]_vars
Pick(w, p) == LET q == SetToSortSeq(p, <) IN [k \in 1..Len(q) |-> w[q[k]]]
Subs(w) == {Pick(w, p) : p \in SUBSET (1..Len(w))}
Meaning == (i = Len(a) /\ j = Len(b) /\ out = <<>>) => LcsLen(a, b) = Max({Len(x) : x \in Subs(a) \cap Subs(b)})
Agrees == /\ Occurs(out, a) /\ Occurs(out, b) /\ Len(out) + Len2(i, j) = LcsLen(a, b)
          /\ \A p \in {a, b} : Occurs(out, p) <=> out \in Subs(p)
Emit == IF IOEnv.EMIT = "1" /\ i = Len(a) /\ j = Len(b) /\ out = <<>> THEN PrintT("GEN " \o ToJson([a |-> a, b |-> b])) ELSE TRUE
=============================================================================

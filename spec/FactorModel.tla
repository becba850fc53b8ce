----------------------------- MODULE FactorModel -----------------------------
(***************************************************************************)
(* Factorisation by two pointers.  Positions count from 0: everything      *)
(* before k is split, the letters from k to j repeat a Lyndon word of      *)
(* length j - i.  Every word over a small alphabet.                        *)
(***************************************************************************)
EXTENDS Lyndon, Json, IOUtils
CONSTANTS N, Val
VARIABLES w, k, i, j, cuts, mode
vars == <<w, k, i, j, cuts, mode>>
Init == w \in UNION {[1..m -> 0..(Val - 1)] : m \in 0..N} /\ k = 0 /\ i = 0 /\ j = 1 /\ cuts = <<>> /\ mode = "look"
Look == /\ mode = "look" /\ k < Len(w)
        /\ IF j < Len(w) /\ w[i + 1] <= w[j + 1]
           THEN i' = (IF w[i + 1] = w[j + 1] THEN i + 1 ELSE k) /\ j' = j + 1 /\ UNCHANGED <<k, cuts, mode>>
           ELSE mode' = "cut" /\ UNCHANGED <<k, i, j, cuts>>
        /\ UNCHANGED w
Cut == /\ mode = "cut"
       /\ IF k < i + 1 THEN k' = k + (j - i) /\ cuts' = Append(cuts, k') /\ UNCHANGED <<i, j, mode>>
          ELSE i' = k /\ j' = k + 1 /\ mode' = "look" /\ UNCHANGED <<k, cuts>>
       /\ UNCHANGED w
Next == Look \/ Cut
Spec == Init /\ [][Next]_vars
Piece(a, b) == SubSeq(w, a + 1, b)
Repeats == (mode = "look" /\ k < Len(w)) =>
    /\ IsLyn(Piece(k, k + j - i))
    /\ \A p \in k..(i - 1) : w[p + 1] = w[p + (j - i) + 1]
Facs == [x \in 1..Len(cuts) |-> Piece(IF x = 1 THEN 0 ELSE cuts[x - 1], cuts[x])]
Good == /\ \A x \in 1..Len(Facs) : IsLyn(Facs[x])
        /\ \A x \in 1..(Len(Facs) - 1) : ~LexLess(Facs[x], Facs[x + 1])
Done == mode = "look" /\ k = Len(w)
\* the factorisation is unique, its last factor is the smallest suffix
Splits == {c \in SUBSET (1..Len(w)) : Len(w) = 0 \/ Len(w) \in c}
Fair(c) == LET q == SetToSortSeq(c, <)
               f == [x \in 1..Len(q) |-> Piece(IF x = 1 THEN 0 ELSE q[x - 1], q[x])] IN
           (\A x \in 1..Len(f) : IsLyn(f[x])) /\ \A x \in 1..(Len(f) - 1) : ~LexLess(f[x], f[x + 1])
Unique == Done => /\ {c \in Splits : Fair(c)} = {ToSet(cuts)}
                  /\ w # <<>> => Last(Facs) = SmallestOf({Suf(w, x) : x \in 1..Len(w)})
                  /\ (Len(cuts) <= 1) <=> IsLyn(w)
Emit == IF IOEnv.EMIT = "1" /\ Done THEN PrintT("GEN " \o ToJson([w |-> w])) ELSE TRUE
=============================================================================

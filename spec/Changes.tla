-------------------------------- MODULE Changes ------------------------------
(***************************************************************************)
(* Lists of permutations of several kinds, each made from the one before   *)
(* by a small move at a given place.  Positions and values count from 0;   *)
(* a list p has p[i + 1] at position i.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CClause(name, ok) == IF ok THEN {} ELSE {name}
Swap(p, i, j) == [p EXCEPT ![i + 1] = p[j + 1], ![j + 1] = p[i + 1]]
Places(p) == 0..(Len(p) - 1)
Ident(n) == [i \in 1..n |-> i - 1]
Doubled(n) == [i \in 1..(2 * n) |-> (i - 1) \div 2]
Spots(p, v) == {i \in Places(p) : p[i + 1] = v}

IsPerm(p, n) == Len(p) = n /\ ToSet(p) = 0..(n - 1)
IsTwice(p, n) == Len(p) = 2 * n /\ \A v \in 0..(n - 1) : Cardinality(Spots(p, v)) = 2
\* values appear for the first time in increasing order
IsDouble(p, n) == IsTwice(p, n) /\ \A v \in 1..(n - 1) : Min(Spots(p, v - 1)) < Min(Spots(p, v))
\* only larger values between two equal ones
IsStirling(p, n) == IsTwice(p, n) /\ \A v \in 0..(n - 1) : \A i \in Min(Spots(p, v))..Max(Spots(p, v)) : p[i + 1] >= v
IsInvol(p, n) == IsPerm(p, n) /\ \A i \in Places(p) : p[p[i + 1] + 1] = i

\* renaming two neighbours, or joining or parting them
InvolMove(p, c) ==
    IF p[c + 1] \in {c, c + 1} /\ p[c + 2] \in {c, c + 1} THEN Swap(p, c, c + 1)
    ELSE LET r(x) == IF x = c THEN c + 1 ELSE IF x = c + 1 THEN c ELSE x IN
         [i \in 1..Len(p) |-> r(p[r(i - 1) + 1])]
Move(kind, p, c) == CASE kind \in {"perm", "double"} -> Swap(p, c, c + 1)
                      [] kind = "stirling" -> Swap(p, c, c + 2)
                      [] kind = "invol" -> InvolMove(p, c)
Reach(kind) == IF kind = "stirling" THEN 2 ELSE 1
Legal(kind, p, n) == CASE kind = "perm" -> IsPerm(p, n) [] kind = "double" -> IsDouble(p, n)
                       [] kind = "stirling" -> IsStirling(p, n) [] kind = "invol" -> IsInvol(p, n)
FirstOf(kind, n) == IF kind \in {"perm", "invol"} THEN Ident(n) ELSE Doubled(n)
RECURSIVE Fact(_), Odd(_), Tel(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Odd(n) == IF n = 0 THEN 1 ELSE (2 * n - 1) * Odd(n - 1)
Tel(n) == IF n < 2 THEN 1 ELSE Tel(n - 1) + (n - 1) * Tel(n - 2)
HowMany(kind, n) == CASE kind = "perm" -> Fact(n) [] kind = "invol" -> Tel(n) [] OTHER -> Odd(n)

CFails(st, e) ==
    CASE e.op = "visits" ->
            LET v == e.r  ch == e.c  n == st.n  k == st.kind
                ok == \A i \in 1..Len(v) : Legal(k, v[i], n)
                fit == \A i \in 1..Len(ch) : ch[i] >= 0 /\ ch[i] + Reach(k) < (IF k \in {"perm", "invol"} THEN n ELSE 2 * n) IN
            CClause("only objects of the kind", ok) \cup
            CClause("each object once", Len(v) = HowMany(k, n) /\ Cardinality(ToSet(v)) = Len(v)) \cup
            CClause("starts from the sorted object", Len(v) > 0 /\ v[1] = FirstOf(k, n)) \cup
            CClause("successive objects differ by the listed move",
                    ok /\ fit /\ Len(ch) = Len(v) - 1 /\ \A i \in 1..(Len(v) - 1) : v[i + 1] = Move(k, v[i], ch[i])) \cup
            CClause("last involution swaps the last two", k = "invol" /\ n > 1 => Last(v) = Swap(Ident(n), n - 2, n - 1))
      [] e.op = "begins" ->         \* the first k of a longer list
            LET v == e.r  ch == e.c  n == st.n  k == st.kind
                ok == \A i \in 1..Len(v) : Legal(k, v[i], n)
                fit == \A i \in 1..Len(ch) : ch[i] >= 0 /\ ch[i] + Reach(k) < (IF k \in {"perm", "invol"} THEN n ELSE 2 * n) IN
            CClause("only objects of the kind", ok) \cup
            CClause("each object once", Len(v) = e.k /\ Cardinality(ToSet(v)) = Len(v)) \cup
            CClause("starts from the sorted object", Len(v) > 0 /\ v[1] = FirstOf(k, n)) \cup
            CClause("successive objects differ by the listed move",
                    ok /\ fit /\ Len(ch) = Len(v) - 1 /\ \A i \in 1..(Len(v) - 1) : v[i + 1] = Move(k, v[i], ch[i]))
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
CApply(st, e) == st
=============================================================================

-------------------------------- MODULE Subseq -------------------------------
(* Longest common and longest strictly increasing subsequences.            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

SClause(name, ok) == IF ok THEN {} ELSE {name}
\* does x occur in s in order, not necessarily side by side
Occurs(x, s) == FoldLeft(LAMBDA k, v : IF k < Len(x) THEN (IF x[k + 1] = v THEN k + 1 ELSE k) ELSE k, 0, s) = Len(x)
\* table row after one more element of a: row[j+1] for the first j elements of b
NextRow(row, v, b) ==
    FoldLeft(LAMBDA r, j : Append(r, IF b[j] = v THEN row[j] + 1 ELSE Max({row[j + 1], r[j]})), <<0>>, [j \in 1..Len(b) |-> j])
LcsTable(a, b) == FoldLeft(LAMBDA t, v : Append(t, NextRow(Last(t), v, b)), <<[j \in 1..(Len(b) + 1) |-> 0]>>, a)
LcsLen(a, b) == Last(Last(LcsTable(a, b)))

\* longest increasing run of picks ending at each position
EndLens(s) == FoldLeft(LAMBDA r, i : Append(r, 1 + Max({0} \cup {r[j] : j \in {k \in 1..(i - 1) : s[k] < s[i]}})), <<>>, [i \in 1..Len(s) |-> i])
LisLen(s) == Max({0} \cup ToSet(EndLens(s)))
BestEnd(s) == LET l == EndLens(s)  m == LisLen(s) IN Min({s[i] : i \in {k \in 1..Len(s) : l[k] = m}})
FirstEnd(s) == LET l == EndLens(s)  m == LisLen(s)  b == BestEnd(s) IN Min({i \in 1..Len(s) : l[i] = m /\ s[i] = b})
Rising(x) == \A i \in 1..(Len(x) - 1) : x[i] < x[i + 1]

SFails(st, e) ==
    CASE e.op = "lcs" -> SClause("common subsequence", Occurs(e.r, st.a) /\ Occurs(e.r, st.b)) \cup
                         SClause("longest", Len(e.r) = LcsLen(st.a, st.b))
      [] e.op = "lis" ->        \* values
            SClause("increasing subsequence", Rising(e.r) /\ Occurs(e.r, st.a)) \cup
            SClause("longest", Len(e.r) = LisLen(st.a)) \cup
            SClause("ends with the smallest value", e.r = <<>> \/ st.a = <<>> \/ Last(e.r) = BestEnd(st.a))
      [] e.op = "pos" ->        \* positions, for inputs whose equal values can be told apart
            IF \E i \in 1..Len(e.r) : e.r[i] \notin 1..Len(st.a) THEN {"returned something not in the input"}
            ELSE LET x == [i \in 1..Len(e.r) |-> st.a[e.r[i]]] IN
            SClause("increasing subsequence", Rising(x) /\ Rising(e.r)) \cup
            SClause("longest", Len(x) = LisLen(st.a)) \cup
            SClause("ends with the earliest occurrence of the smallest value", e.r = <<>> \/ Last(e.r) = FirstEnd(st.a))
      [] e.op = "same" -> SClause("inputs unchanged", e.r)
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
SApply(st, e) == st
=============================================================================

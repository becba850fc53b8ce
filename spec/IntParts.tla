------------------------------- MODULE IntParts ------------------------------
(***************************************************************************)
(* Partitions of integers: nonincreasing sequences of positive parts.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

PClause(name, ok) == IF ok THEN {} ELSE {name}
Total(p) == FoldLeft(LAMBDA a, x : a + x, 0, p)
IsPart(p, n) == /\ \A i \in 1..Len(p) : p[i] >= 1
                /\ \A i \in 1..(Len(p) - 1) : p[i] >= p[i + 1]
                /\ Total(p) = n
DictLess(a, b) == LET m == Min({Len(a), Len(b)})
                      d == {i \in 1..m : a[i] # b[i]} IN
                  IF d = {} THEN Len(a) < Len(b) ELSE a[Min(d)] < b[Min(d)]
Flip(p) == [i \in 1..Len(p) |-> p[Len(p) + 1 - i]]
Powers == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
\* numbers of partitions of 0..n using parts from a list, adding one part size at a time
AddPart(c, k) == FoldLeft(LAMBDA r, i : Append(r, c[i] + (IF i > k THEN r[i - k] ELSE 0)), <<>>, [i \in 1..Len(c) |-> i])
Ways(n, parts) == Last(FoldLeft(AddPart, [i \in 1..(n + 1) |-> IF i = 1 THEN 1 ELSE 0], parts))
AllCount(n) == IF n < 0 THEN 0 ELSE Ways(n, [k \in 1..n |-> k])
BinCount(n) == IF n < 0 THEN 0 ELSE Ways(n, SetToSeq({q \in Powers : q <= n}))
\* with exactly l parts: by transposition, largest part l
FixCount(n, l) == IF l = 0 THEN (IF n = 0 THEN 1 ELSE 0) ELSE IF n < l THEN 0 ELSE Ways(n - l, [k \in 1..l |-> k])
Conj(p) == IF p = <<>> THEN <<>> ELSE [i \in 1..p[1] |-> Cardinality({j \in 1..Len(p) : p[j] >= i})]

Chain(ps, less(_, _)) == \A i \in 1..(Len(ps) - 1) : less(ps[i], ps[i + 1])
PFails(st, e) ==
    CASE e.op = "list" ->
            PClause("only partitions of the integer", \A i \in 1..Len(e.r) : IsPart(e.r[i], st.n)) \cup
            (CASE e.k \in {"mckay", "revlex", "default"} ->
                     PClause("reverse dictionary order", Chain(e.r, LAMBDA a, b : DictLess(b, a))) \cup
                     PClause("all of them", Len(e.r) = AllCount(st.n))
               [] e.k = "lex" ->
                     PClause("dictionary order", Chain(e.r, DictLess)) \cup
                     PClause("all of them", Len(e.r) = AllCount(st.n))
               [] e.k = "binary" ->
                     PClause("parts are powers of two", \A i \in 1..Len(e.r) : ToSet(e.r[i]) \subseteq Powers) \cup
                     PClause("reverse dictionary order", Chain(e.r, LAMBDA a, b : DictLess(b, a))) \cup
                     PClause("all of them", Len(e.r) = BinCount(st.n))
               [] e.k = "fixed" ->
                     PClause("number of parts", \A i \in 1..Len(e.r) : Len(e.r[i]) = e.l) \cup
                     PClause("order from the last part", Chain(e.r, LAMBDA a, b : DictLess(Flip(a), Flip(b)))) \cup
                     PClause("all of them", Len(e.r) = FixCount(st.n, e.l)))
      [] e.op = "conj" -> PClause("transposed diagram", e.r = Conj(e.p)) \cup PClause("argument unchanged", e.after = e.p)
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
PApply(st, e) == st
=============================================================================

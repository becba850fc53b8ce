-------------------------------- MODULE Lyndon -------------------------------
(***************************************************************************)
(* Lyndon words: words smaller than all their proper nonempty suffixes.    *)
(* Words are sequences of integers compared as in a dictionary.            *)
(***************************************************************************)
EXTENDS LongNumbers, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

YClause(name, ok) == IF ok THEN {} ELSE {name}
Suf(w, i) == SubSeq(w, i, Len(w))
Rot(w, i) == Suf(w, i) \o SubSeq(w, 1, i - 1)
\* dictionary order, a prefix before its extensions
LexLess(a, b) == LET m == Min({Len(a), Len(b)})
                     d == {i \in 1..m : a[i] # b[i]} IN
                 IF d = {} THEN Len(a) < Len(b) ELSE a[Min(d)] < b[Min(d)]
IsLyn(w) == \A i \in 2..Len(w) : LexLess(w, Suf(w, i))
Words(s, n) == [1..n -> 0..(s - 1)]
LynSet(s, n) == {w \in Words(s, n) : IsLyn(w)}
RECURSIVE IPow(_, _)
IPow(b, k) == IF k = 0 THEN 1 ELSE b * IPow(b, k - 1)
\* every word is a power of a rotation of exactly one Lyndon word
Counts(s, n) == FoldLeft(LAMBDA c, k : Append(c, (IPow(s, k) - FoldSet(LAMBDA d, a : a + d * c[d], 0, {d \in 1..(k - 1) : k % d = 0})) \div k),
                         <<>>, [k \in 1..n |-> k])
LynCount(s, n) == IF n = 0 THEN 1 ELSE Counts(s, n)[n]
\* the same relation for long counts c of the lengths 1..Len(c)
Divisors(k) == {d \in 1..k : k % d = 0}
LongCounts(s, c) == \A k \in 1..Len(c) :
    LEq(LSum([i \in 1..k |-> IF i \in Divisors(k) THEN LTimes(LOf(i), c[i]) ELSE <<0>>]), LPower(LOf(s), k))
Flat(ws) == FoldLeft(LAMBDA a, w : a \o w, <<>>, ws)
SmallestOf(ws) == CHOOSE w \in ws : \A v \in ws : ~LexLess(v, w)
Sorted(ws) == \A i \in 1..(Len(ws) - 1) : LexLess(ws[i], ws[i + 1])
Letters(ws, s) == \A i \in 1..Len(ws) : \A k \in 1..Len(ws[i]) : ws[i][k] \in 0..(s - 1)
OfLen(ws, n) == Cardinality({i \in 1..Len(ws) : Len(ws[i]) = n})

YFails(st, e) ==
    CASE e.op = "limited" ->        \* all of lengths 1..n
            YClause("only Lyndon words over the alphabet", Letters(e.r, st.s) /\ \A i \in 1..Len(e.r) : Len(e.r[i]) \in 1..st.n /\ IsLyn(e.r[i])) \cup
            YClause("dictionary order without repeats", Sorted(e.r)) \cup
            YClause("none missing", \A k \in 1..st.n : OfLen(e.r, k) = LynCount(st.s, k))
      [] e.op = "exact" ->
            YClause("only Lyndon words over the alphabet", Letters(e.r, st.s) /\ \A i \in 1..Len(e.r) : Len(e.r[i]) = st.n /\ IsLyn(e.r[i])) \cup
            YClause("dictionary order without repeats", Sorted(e.r)) \cup
            YClause("none missing", Len(e.r) = LynCount(st.s, st.n))
      [] e.op = "stream" ->         \* the words before the first of length n + 1
            YClause("only Lyndon words over the alphabet", Letters(e.r, st.s) /\ \A i \in 1..Len(e.r) : Len(e.r[i]) \in 0..st.n /\ IsLyn(e.r[i])) \cup
            YClause("by length, then dictionary order",
                    \A i \in 1..(Len(e.r) - 1) : LET a == e.r[i]  b == e.r[i + 1] IN Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLess(a, b))) \cup
            YClause("none missing", \A k \in 0..st.n : OfLen(e.r, k) = LynCount(st.s, k))
      [] e.op = "count" -> YClause("number of words", e.r = LynCount(st.s, st.n))
      [] e.op = "counts" -> YClause("numbers of words of every length", Len(e.r) = st.n /\ LongCounts(st.s, e.r))
      [] e.op = "bruijn" ->
            LET m == Len(e.r)
                dd == e.r \o e.r \o e.r
                at(i) == [k \in 1..st.n |-> e.r[((i + k - 2) % m) + 1]] IN
            YClause("length", m = IPow(st.s, st.n)) \cup
            YClause("letters", Letters(<<e.r>>, st.s)) \cup
            YClause("each word once", m > 0 /\ Cardinality({at(i) : i \in 1..m}) = IPow(st.s, st.n))
      [] e.op = "factors" ->
            YClause("factors make up the word", Flat(e.r) = st.w /\ \A i \in 1..Len(e.r) : e.r[i] # <<>>) \cup
            YClause("factors are Lyndon words", \A i \in 1..Len(e.r) : IsLyn(e.r[i])) \cup
            YClause("factors do not increase", \A i \in 1..(Len(e.r) - 1) : ~LexLess(e.r[i], e.r[i + 1]))
      [] e.op = "breaks" ->
            LET ends == <<0>> \o e.r
                f == [i \in 1..Len(e.r) |-> SubSeq(st.w, ends[i] + 1, ends[i + 1])] IN
            YClause("break points", /\ \A i \in 1..Len(e.r) : ends[i] < ends[i + 1]
                                    /\ Flat(f) = st.w /\ \A i \in 1..Len(f) : IsLyn(f[i])
                                    /\ \A i \in 1..(Len(f) - 1) : ~LexLess(f[i], f[i + 1]))
      [] e.op = "suffix" -> YClause("smallest suffix", e.r = SmallestOf({Suf(st.w, i) : i \in 1..Len(st.w)}))
      [] e.op = "rotation" -> YClause("smallest rotation", e.r = IF st.w = <<>> THEN <<>> ELSE SmallestOf({Rot(st.w, i) : i \in 1..Len(st.w)}))
      [] e.op = "islyn" -> YClause("Lyndon test", e.r = IsLyn(st.w))
      [] e.op = "type" -> YClause("pieces have the type of the argument", e.r)
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
YApply(st, e) == st
=============================================================================

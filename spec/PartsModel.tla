------------------------------ MODULE PartsModel -----------------------------
(***************************************************************************)
(* The successor rules of three generators: lower the last part above one  *)
(* and refill; split the last power above one and refill with powers;      *)
(* raise a later part and level the ones before it.  Each rule goes to the *)
(* very next partition of its kind.                                        *)
(***************************************************************************)
EXTENDS IntParts, Json, IOUtils
CONSTANT N
VARIABLES kind, n, l, p, made
vars == <<kind, n, l, p, made>>
RECURSIVE Parts(_, _)
Parts(m, top) == IF m = 0 THEN {<<>>} ELSE UNION {{<<k>> \o q : q \in Parts(m - k, k)} : k \in 1..(IF top < m THEN top ELSE m)}
Kinds == CASE kind = "all" -> Parts(n, n)
           [] kind = "binary" -> {q \in Parts(n, n) : ToSet(q) \subseteq Powers}
           [] kind = "fixed" -> {q \in Parts(n, n) : Len(q) = l}
RECURSIVE Fill(_, _)
\* m written greedily with parts at most k; halving for powers
Fill(m, k) == IF m = 0 THEN <<>> ELSE IF m >= k THEN <<k>> \o Fill(m - k, k) ELSE <<m>>
RECURSIVE FillPow(_, _)
FillPow(m, k) == IF m = 0 THEN <<>> ELSE IF m >= k THEN <<k>> \o FillPow(m - k, k) ELSE FillPow(m, k \div 2)
Top(m) == Max({q \in Powers : q <= m})
Init == /\ n \in 1..N
        /\ \/ kind = "all" /\ l = 0 /\ p = <<n>>
           \/ kind = "binary" /\ l = 0 /\ p = FillPow(n, Top(n))
           \/ kind = "fixed" /\ l \in 1..n /\ p = <<n - l + 1>> \o [i \in 1..(l - 1) |-> 1]
        /\ made = 1
Big == {i \in 1..Len(p) : p[i] > 1}
Low == Big # {} /\ LET i == Max(Big)  head == SubSeq(p, 1, i - 1)  rest == Total(SubSeq(p, i, Len(p))) IN
       \/ kind = "all" /\ p' = head \o Fill(rest, p[i] - 1)
       \/ kind = "binary" /\ p' = head \o FillPow(rest, p[i] \div 2)
\* first later part at least two below the first one
Rise == LET c == {j \in 2..Len(p) : p[j] < p[1] - 1} IN
        /\ kind = "fixed" /\ c # {}
        /\ LET j == Min(c)  x == p[j] + 1
               later == SubSeq(p, j + 1, Len(p)) IN
           p' = <<n - Total(later) - (j - 1) * x>> \o [i \in 1..(j - 1) |-> x] \o later
Next == (Low \/ Rise) /\ made' = made + 1 /\ UNCHANGED <<kind, n, l>>
Spec == Init /\ [][Next]_vars
Less(a, b) == IF kind = "fixed" THEN DictLess(Flip(a), Flip(b)) ELSE DictLess(b, a)
Member == p \in Kinds
Stuck == ~(ENABLED Next)
Count == IF kind = "all" THEN AllCount(n) ELSE IF kind = "binary" THEN BinCount(n) ELSE FixCount(n, l)
Counted == /\ made = 1 => Count = Cardinality(Kinds) /\ \A q \in Kinds : q # p => Less(p, q)
           /\ Stuck => made = Count
Steps == [][Less(p, p') /\ \A q \in Kinds : ~(Less(p, q) /\ Less(q, p'))]_vars
Twice == /\ IsPart(Conj(p), n) /\ Conj(Conj(p)) = p
         /\ Len(Conj(p)) = p[1] /\ Conj(p)[1] = Len(p)
Emit == IF IOEnv.EMIT = "1" /\ kind = "all" THEN PrintT("GEN " \o ToJson([p |-> p])) ELSE TRUE
=============================================================================

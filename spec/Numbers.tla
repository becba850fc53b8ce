-------------------------------- MODULE Numbers ------------------------------
(***************************************************************************)
(* Streams of numbers.  The state holds, for every open stream, its kind   *)
(* and how far it has got; values already handed out are read again later. *)
(***************************************************************************)
EXTENDS LongNumbers, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

NClause(name, ok) == IF ok THEN {} ELSE {name}
RECURSIVE RootFrom(_, _)
RootFrom(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE RootFrom(n, r + 1)
IsPrime(n) == n > 1 /\ \A d \in 2..RootFrom(n, 1) : n % d # 0
RECURSIVE ExpOf(_, _)
ExpOf(n, p) == IF n % p = 0 THEN 1 + ExpOf(n \div p, p) ELSE 0
\* trial division: pairs <<prime, exponent>>
RECURSIVE FactorFrom(_, _)
FactorFrom(n, d) == IF n = 1 THEN {}
    ELSE IF d * d > n THEN {<<n, 1>>}
    ELSE IF n % d # 0 THEN FactorFrom(n, d + 1)
    ELSE LET x == ExpOf(n, d) IN {<<d, x>>} \cup FactorFrom(n \div (d ^ x), d + 1)
Factors(n) == FactorFrom(n, 2)
Moebius(n) == LET f == Factors(n) IN
    IF \E q \in f : q[2] > 1 THEN 0 ELSE IF Cardinality(f) % 2 = 0 THEN 1 ELSE -1
Sigma(q) == (q[1] ^ (q[2] + 1) - 1) \div (q[1] - 1)
\* each prime at most one more than the divisor sum of the smaller prime powers
PracticalBy(f) == LET s == SetToSortSeq(f, LAMBDA a, b : a[1] < b[1]) IN
    FoldLeft(LAMBDA a, q : [ok |-> a.ok /\ q[1] - 1 <= a.sum, sum |-> a.sum * Sigma(q)], [ok |-> TRUE, sum |-> 1], s).ok
\* the same for a sequence of pairs <<long prime, exponent>> with growing primes
LSigma(q) == FoldLeft(LAMBDA r, i : LPlus(LTimes(r, q[1]), <<1>>), <<1>>, [i \in 1..q[2] |-> i])
PracticalLong(f) ==
    FoldLeft(LAMBDA a, q : [ok |-> a.ok /\ LLeq(LSub(q[1], <<1>>), a.sum), sum |-> LTimes(a.sum, LSigma(q))], [ok |-> TRUE, sum |-> <<1>>], f).ok
Growing(f) == \A i \in 1..(Len(f) - 1) : LLess(f[i][1], f[i + 1][1])
Practical(n) == PracticalBy(Factors(n))

\* members of an ordered stream in a range
Among(kind, lo, hi) == {n \in lo..hi : IF kind = "primes" THEN IsPrime(n) ELSE Practical(n)}
Pairs(f) == {<<q[1], q[2]>> : q \in ToSet(f)}
\* rows <<n, <<p, x>>, ...>>
Exact(row) == Pairs(row[2]) = Factors(row[1]) /\ Len(row[2]) = Cardinality(Factors(row[1]))

NApply(st, e) ==
    CASE e.op = "open" -> Append(st, [kind |-> e.kind, at |-> 0])
      [] e.op = "take" -> IF e.r = <<>> THEN st
                          ELSE [st EXCEPT ![e.i].at = IF st[e.i].kind \in {"primes", "practical"} THEN Last(e.r) ELSE @ + Len(e.r)]
      [] OTHER -> st
NFails(st, e) ==
    CASE e.op = "open" -> {}
      [] e.op = "take" ->
            LET s == st[e.i]  k == s.kind IN
            NClause("as many as asked for", Len(e.r) = e.n) \cup
            (CASE k \in {"primes", "practical"} ->
                    NClause("every member in order", \A x \in 1..(Len(e.r) - 1) : e.r[x] < e.r[x + 1]) \cup
                    NClause("exactly the members", e.r = <<>> \/ (Last(e.r) > s.at /\ Last(e.r) <= e.cap /\ ToSet(e.r) = Among(k, s.at + 1, Last(e.r))))
               [] k = "factored" ->
                    NClause("integers one after the other", \A x \in 1..Len(e.r) : e.r[x][1] = s.at + x) \cup
                    NClause("prime factorisation", \A x \in 1..Len(e.r) : Exact(e.r[x]))
               [] k = "moebius" -> NClause("Moebius values", \A x \in 1..Len(e.r) : e.r[x] = Moebius(s.at + x)))
      [] e.op = "again" -> NClause("values handed out stay correct", \A x \in 1..Len(e.r) : Exact(e.r[x]))
      [] e.op = "mu" -> NClause("Moebius function", e.r = Moebius(e.n))
      [] e.op = "practical" -> NClause("test of a factorisation", e.r = PracticalBy(Pairs(e.f))) 
      [] e.op = "practicalLong" -> NClause("test of a factorisation", Growing(e.f) /\ e.r = PracticalLong(e.f))
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
=============================================================================

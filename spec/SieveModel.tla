------------------------------ MODULE SieveModel -----------------------------
(***************************************************************************)
(* Two incremental sieves.  One keeps for every prime its next odd         *)
(* multiple; the other passes prime powers along and hands out each        *)
(* factorisation.  What is handed out lives in cells: the sieve may only   *)
(* go on writing to cells it has not handed out.                           *)
(***************************************************************************)
EXTENDS Numbers
CONSTANTS Top, Share        \* Share = TRUE models handing out the working cell
VARIABLES n, wit, roots, got, m, cell, work, given
vars == <<n, wit, roots, got, m, cell, work, given>>
\* wit: number -> step; work: number -> cell id; given: number -> cell id
Init == /\ n = 3 /\ wit = <<>> /\ roots = 3 /\ got = {2}
        /\ m = 2 /\ cell = <<>> /\ work = <<>> /\ given = <<>>
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
RECURSIVE Free(_, _, _)
Free(f, q, s) == IF q \in DOMAIN f THEN Free(f, q + s, s) ELSE q
\* roots: next prime whose square is still ahead (odd ones only)
NextPrime(p) == CHOOSE q \in (p + 1)..(2 * p) : IsPrime(q) /\ \A x \in (p + 1)..(q - 1) : ~IsPrime(x)
StepOdd ==
    /\ n <= Top
    /\ LET start == n >= roots * roots
           w0 == IF start THEN Put(wit, roots * roots, 2 * roots) ELSE wit IN
       /\ roots' = IF start THEN NextPrime(roots) ELSE roots
       /\ IF n \in DOMAIN w0 THEN got' = got /\ wit' = Put(Del(w0, n), Free(w0, n + w0[n], w0[n]), w0[n])
          ELSE got' = got \cup {n} /\ wit' = w0
    /\ n' = n + 2 /\ UNCHANGED <<m, cell, work, given>>
\* add p^x to the entry of number k, making its cell if needed
AddTo(s, k, q) ==
    IF k \in DOMAIN s.work THEN [s EXCEPT !.cell[s.work[k]] = @ \cup {q}]
    ELSE [cell |-> Append(s.cell, {q}), work |-> Put(s.work, k, Len(s.cell) + 1)]
Has(s, k, p) == k \in DOMAIN s.work /\ \E q \in s.cell[s.work[k]] : q[1] = p
Hand(s, f) ==       \* a cell to hand out, and the cell to go on with
    IF Share THEN [cell |-> Append(s.cell, f), out |-> Len(s.cell) + 1, on |-> Len(s.cell) + 1]
    ELSE [cell |-> s.cell \o <<f, f>>, out |-> Len(s.cell) + 1, on |-> Len(s.cell) + 2]
StepAll ==
    /\ m <= Top
    /\ LET s == [cell |-> cell, work |-> work] IN
       IF m \notin DOMAIN work
       THEN LET h == Hand(s, {<<m, 1>>}) IN cell' = h.cell /\ work' = Put(work, 2 * m, h.on) /\ given' = Put(given, m, h.out)
       ELSE LET f == cell[work[m]] IN
            IF Cardinality(f) = 1
            THEN LET q == CHOOSE q \in f : TRUE
                     h == Hand(s, {<<q[1], q[2] + 1>>})
                     t == AddTo([cell |-> h.cell, work |-> Put(work, 2 * m, h.on)], m + q[1] ^ q[2], q) IN
                 cell' = t.cell /\ work' = Del(t.work, m) /\ given' = Put(given, m, h.out)
            ELSE LET one(t, q) == LET k == m + q[1] ^ q[2] IN AddTo(t, IF Has(t, k, q[1]) THEN k + q[1] ^ q[2] ELSE k, q)
                     t == FoldLeft(one, s, SetToSeq(f)) IN
                 cell' = t.cell /\ work' = Del(t.work, m) /\ given' = Put(given, m, work[m])
    /\ m' = m + 1 /\ UNCHANGED <<n, wit, roots, got>>
Next == StepOdd \/ (n > Top /\ StepAll)
Spec == Init /\ [][Next]_vars
Primes == got = {x \in 2..(n - 1) : IsPrime(x)}
Handed == \A x \in DOMAIN given : cell[given[x]] = Factors(x)
\* plain meaning of practical: every smaller number is a sum of distinct divisors
Divs(x) == {d \in 1..x : x % d = 0}
Sums(x) == FoldSet(LAMBDA d, a : a \cup {y + d : y \in a}, {0}, Divs(x))
Ordered(k) == SetToSortSeq(Factors(k), LAMBDA a, b : a[1] < b[1])
Meaning == m <= 80 => /\ Practical(m) <=> (1..m) \subseteq Sums(m)
                      /\ Practical(m) <=> PracticalLong([i \in DOMAIN Ordered(m) |-> <<LOf(Ordered(m)[i][1]), Ordered(m)[i][2]>>])
ASSUME \A x \in 1..300 : FoldSet(LAMBDA d, a : a + Moebius(d), 0, Divs(x)) = (IF x = 1 THEN 1 ELSE 0)
=============================================================================

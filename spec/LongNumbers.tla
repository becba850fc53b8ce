----------------------------- MODULE LongNumbers -----------------------------
(***************************************************************************)
(* Numbers of any length: sequences of signed digits to base 10000, least  *)
(* significant first.  TLC's own numbers end at thirty-one bits.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Base == 10000
Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
LAdd(a, b) == [i \in 1..Longer(a, b) |-> Digit(a, i) + Digit(b, i)]
LSub(a, b) == [i \in 1..Longer(a, b) |-> Digit(a, i) - Digit(b, i)]
LMul(a, b) ==
    LET m == Len(a)
        n == Len(b)
    IN  [k \in 1..(m + n) |->
            LET lo == IF k > n THEN k + 1 - n ELSE 1
                hi == IF k < m THEN k ELSE m
            IN  FoldLeft(LAMBDA s, x : s + x, 0, [j \in 1..(hi + 1 - lo) |-> a[lo + j - 1] * b[k + 2 - lo - j]])]
(* digits 0..9999 below, and one more that carries the sign *)
LNorm(a) ==
    LET step(s, x) == [out |-> Append(s.out, (x + s.carry) % Base), carry |-> (x + s.carry) \div Base]
        r == FoldLeft(step, [out |-> <<>>, carry |-> 0], a)
    IN  Append(r.out, r.carry)
LSign(a) == LET n == LNorm(a)
            IN  IF n[Len(n)] < 0 THEN -1 ELSE IF \E i \in 1..Len(n) : n[i] # 0 THEN 1 ELSE 0
LLeq(a, b) == LSign(LSub(b, a)) >= 0
LLess(a, b) == LSign(LSub(b, a)) > 0
LEq(a, b) == LSign(LSub(a, b)) = 0
LNeg(a) == [i \in 1..Len(a) |-> -a[i]]
LAbs(a) == IF LSign(a) < 0 THEN LNeg(a) ELSE a
(* a short number, its value being less than the base in size *)
LOf(x) == LNorm(<<x>>)
LTimes(a, b) == TLCEval(LNorm(LMul(LNorm(a), LNorm(b))))
LPlus(a, b) == TLCEval(LNorm(LAdd(a, b)))
LPower(a, k) == FoldLeft(LAMBDA r, i : LTimes(r, a), <<1>>, [i \in 1..k |-> i])
LSum(q) == FoldLeft(LAMBDA r, x : LPlus(r, x), <<0>>, q)
=============================================================================

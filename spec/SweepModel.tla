------------------------------ MODULE SweepModel -----------------------------
(***************************************************************************)
(* The recursive sweeps that write the change sequences, and a machine     *)
(* that carries them out one by one.  It never leaves its kind of object,  *)
(* never comes back, and has seen everything when the changes run out.     *)
(***************************************************************************)
EXTENDS Changes
CONSTANTS N, D
VARIABLES kind, n, left, p, been
vars == <<kind, n, left, p, been>>
UpTo(a, b) == [i \in 1..(IF b >= a THEN b - a + 1 ELSE 0) |-> a + i - 1]
DownTo(a, b) == [i \in 1..(IF a >= b THEN a - b + 1 ELSE 0) |-> a - i + 1]
\* one sweep, a change of the rest shifted by x, the other sweep, a change shifted by y, ...
Weave(r, one, other, x, y) ==
    FoldLeft(LAMBDA s, k : s \o (IF k % 2 = 1 THEN <<r[k] + x>> \o other ELSE <<r[k] + y>> \o one), one, [k \in 1..Len(r) |-> k])
RECURSIVE Seq4(_, _)
Seq4(k, m) ==
    CASE k = "perm" -> IF m < 1 THEN <<>> ELSE Weave(Seq4(k, m - 1), DownTo(m - 2, 0), UpTo(0, m - 2), 1, 0)
      [] k = "double" -> IF m < 1 THEN <<>> ELSE Weave(Seq4(k, m - 1), UpTo(1, 2 * m - 2), DownTo(2 * m - 2, 1), 1, 2)
      [] k = "stirling" -> IF m < 2 THEN <<>> ELSE Weave(Seq4(k, m - 1), DownTo(2 * m - 3, 0), UpTo(0, 2 * m - 3), 2, 0)
      [] k = "invol" ->
            IF m < 2 THEN <<>> ELSE IF m = 2 THEN <<0>> ELSE IF m = 3 THEN <<0, 1, 0>>
            ELSE LET r == Seq4(k, m - 2) IN
                 Seq4(k, m - 1) \o <<m - 2>> \o DownTo(m - 4, 0) \o
                 FoldLeft(LAMBDA s, i : s \o (IF i % 2 = 1 THEN <<r[i] + 1>> \o UpTo(0, m - 3) ELSE <<r[i]>> \o DownTo(m - 3, 0)),
                          <<>>, [i \in 1..Len(r) |-> i]) \o <<m - 4>>
Init == /\ kind \in {"perm", "double", "stirling", "invol"}
        /\ n \in 0..(IF kind \in {"perm", "invol"} THEN N ELSE D)
        /\ left = Seq4(kind, n) /\ p = FirstOf(kind, n) /\ been = {p}
Next == /\ left # <<>> /\ left' = Tail(left) /\ p' = Move(kind, p, Head(left)) /\ been' = been \cup {p'} /\ UNCHANGED <<kind, n>>
Spec == Init /\ [][Next]_vars
Kept == Legal(kind, p, n)
Fresh == [][p' \notin been]_vars
Whole == left = <<>> => /\ Cardinality(been) = HowMany(kind, n)
                        /\ kind = "invol" /\ n > 1 => p = Swap(Ident(n), n - 2, n - 1)
\* the counts by brute force
Some == CASE kind \in {"perm", "invol"} -> {q \in [1..n -> 0..(n - 1)] : Legal(kind, q, n)}
          [] OTHER -> {q \in [1..(2 * n) -> 0..(n - 1)] : Legal(kind, q, n)}
Counts == (Cardinality(been) = 1 /\ n <= (IF kind \in {"perm", "invol"} THEN 5 ELSE 3)) => Cardinality(Some) = HowMany(kind, n)
=============================================================================

----------------------------- MODULE SmawkModel -----------------------------
(***************************************************************************)
(* The reduce/recurse/fill algorithm, as an operator, run on every totally *)
(* monotone R x C matrix with entries 0..V.  Emits the matrices.           *)
(***************************************************************************)
EXTENDS MatrixSearch, TLC, Json, IOUtils
CONSTANTS R, C, V
VARIABLE m

\* stack of surviving rows
RECURSIVE Pop(_, _, _)
Pop(s, r, cols) == IF s # <<>> /\ m[Last(s)][cols[Len(s)]] > m[r][cols[Len(s)]] THEN Pop(Front(s), r, cols) ELSE s
Push(s, r, cols) == LET p == Pop(s, r, cols) IN IF Len(p) # Len(cols) THEN Append(p, r) ELSE p
Reduce(rows, cols) == FoldLeft(LAMBDA s, r : Push(s, r, cols), <<>>, rows)

RECURSIVE Solve(_, _)
Solve(rows, cols) ==      \* function from cols to the row found
    IF cols = <<>> THEN <<>> ELSE
    LET rs == Reduce(rows, cols)
        even == Solve(rs, [i \in 1..(Len(cols) \div 2) |-> cols[2 * i]])
        hi(c) == IF c = Len(cols) THEN Len(rs) ELSE CHOOSE k \in 1..Len(rs) : rs[k] = even[cols[c + 1]]
        lo(c) == IF c = 1 THEN 1 ELSE CHOOSE k \in 1..Len(rs) : rs[k] = even[cols[c - 1]]
        best(c) == LET mn == Min({m[rs[k]][cols[c]] : k \in lo(c)..hi(c)})
                   IN  rs[CHOOSE k \in lo(c)..hi(c) : m[rs[k]][cols[c]] = mn
                              /\ \A q \in lo(c)..(k - 1) : m[rs[q]][cols[c]] # mn]
    IN  [j \in ToSet(cols) |-> LET c == CHOOSE c \in 1..Len(cols) : cols[c] = j
                               IN  IF c % 2 = 0 THEN even[j] ELSE best(c)]

Init == m \in [1..R -> [1..C -> 0..V]] /\ Monotone(m)
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson(m)) ELSE TRUE
Spec == Init /\ [][UNCHANGED m]_m
Correct == LET s == Solve([i \in 1..R |-> i], [j \in 1..C |-> j]) IN \A j \in 1..C : s[j] = ColArg(m, j)
=============================================================================

---------------------------- MODULE OnlineMinima ----------------------------
(***************************************************************************)
(* The online algorithm as a machine: tentative values ahead of the        *)
(* finished position, a base row, and the four cases of one advance.  Run  *)
(* on every totally monotone triangular cost matrix of size N with entries *)
(* 0..V; columns past N cost -i, as the interface prescribes.              *)
(***************************************************************************)
EXTENDS MatrixSearch, TLC, Json, IOUtils
CONSTANTS N, V
VARIABLES w, val, fin, base, ten
vars == <<w, val, fin, base, ten>>
Cells == {c \in (0..(N - 1)) \X (1..N) : c[1] < c[2]}
Cost(i, j) == IF j > N THEN -i ELSE w[<<i, j>>]
Mono == \A a, b \in Cells : (a[2] = b[2] /\ a[1] < b[1] /\ w[a] > w[b]) =>
            \A j \in (a[2] + 1)..N : w[<<a[1], j>>] > w[<<b[1], j>>]
Init == /\ w \in [Cells -> 0..V] /\ Mono
        /\ val = [j \in 0..(2 * N + 1) |-> IF j = 0 THEN 0 ELSE 99] /\ fin = 0 /\ base = 0 /\ ten = 0
        /\ IF IOEnv.EMIT = "1"
           THEN PrintT("GEN " \o ToJson([i \in 1..N |-> [j \in 1..N |-> IF i - 1 < j THEN w[<<i - 1, j>>] ELSE 0]]))
           ELSE TRUE
Advance ==
    LET i == fin + 1 IN
    /\ i <= N /\ UNCHANGED w
    /\ IF i > ten
       THEN LET t == fin + (fin + 1 - base) IN
            /\ ten' = t /\ fin' = i /\ UNCHANGED base
            /\ val' = [j \in DOMAIN val |-> IF j \in (fin + 1)..t
                          THEN Min({val[j]} \cup {Cost(r, j) : r \in base..fin}) ELSE val[j]]
       ELSE IF Cost(i - 1, i) < val[i]
       THEN /\ val' = [val EXCEPT ![i] = Cost(i - 1, i)]
            /\ base' = i - 1 /\ ten' = i /\ fin' = i
       ELSE IF Cost(i - 1, ten) >= val[ten]
       THEN fin' = i /\ UNCHANGED <<val, base, ten>>
       ELSE base' = i - 1 /\ ten' = i /\ fin' = i /\ UNCHANGED val
Spec == Init /\ [][Advance]_vars
Correct == \A j \in 1..fin : val[j] = Min({Cost(i, j) : i \in 0..(j - 1)})
InRange == ten <= 2 * N + 1
=============================================================================

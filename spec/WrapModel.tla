------------------------------ MODULE WrapModel ------------------------------
(***************************************************************************)
(* Setting a paragraph line by line.  Every arrangement is reached; the    *)
(* recurrence gives the least total; and the table of line starts against  *)
(* line ends is such that the best start never moves back, which is what   *)
(* the fast search relies on.                                              *)
(***************************************************************************)
EXTENDS Wrap, Json, IOUtils
CONSTANTS Most, Long, Gaps, Targets
VARIABLES P, o, how, at, cost, flag
vars == <<P, o, how, at, cost, flag>>
Part == [c : {[i \in 1..k |-> 97] : k \in 1..Long}, gap : Gaps]
Opt == [target : Targets, longlast : BOOLEAN, over : {0, 3, 1000}, nline : {0, 7}, oneword : {0, 5}, hyphen : {0, 4}]
Quick == {x \in Opt : (x.over = 1000 /\ x.nline = 7) \/ (x.over = 3 /\ x.oneword = 5 /\ x.hyphen = 4) \/ (x.over = 0 /\ x.nline = 0 /\ ~x.longlast)}
Init == /\ P \in UNION {[1..n -> Part] : n \in 0..Most} /\ (IF P = <<>> THEN TRUE ELSE P[Len(P)].gap = 1) /\ o \in Quick
        /\ how \in {Plain, [hyphen |-> 2, space |-> 3, wide |-> 2, other |-> 1]}
        /\ at = 0 /\ cost = 0 /\ flag = "go"
E == Ends(P, how)
Line == /\ at < Len(P)
        /\ \E j \in (at + 1)..Len(P) : at' = j /\ cost' = cost + LinePenalty(P, E, o, how, at + 1, j)
        /\ UNCHANGED <<P, o, how, flag>>
Next == Line
Spec == Init /\ [][Next]_vars
\* nothing beats the recurrence, at any point of the paragraph
Least == cost >= BestTo(P, E, o, how)[at + 1]
\* and it is attained
Attained == at = 0 => \E S \in SUBSET (1..Len(P)) : (Len(P) \in S \/ P = <<>>) /\ Total(P, E, o, how, SetToSortSeq(S, <)) = Best(P, E, o, how)
\* M(i,j): starting the line that ends at j with part i
M(i, j) == BestTo(P, E, o, how)[i] + LinePenalty(P, E, o, how, i, j)
Monotone == at = 0 => \A i \in 1..Len(P) : \A i2 \in (i + 1)..Len(P) : \A j \in i2..Len(P) : \A j2 \in (j + 1)..Len(P) :
                (M(i, j) > M(i2, j)) => (M(i, j2) > M(i2, j2))
Emit == IF IOEnv.EMIT = "1" /\ at = 0 THEN PrintT("GEN " \o ToJson([p |-> [k \in 1..Len(P) |-> <<Len(P[k].c), P[k].gap>>], o |-> o, how |-> how])) ELSE TRUE
=============================================================================

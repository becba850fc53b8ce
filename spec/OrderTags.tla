------------------------------ MODULE OrderTags ------------------------------
(***************************************************************************)
(* Order maintenance by integer tags in 0..MaxTag (MaxTag+1 a power of     *)
(* two): a new tag is the midpoint; on a collision either the whole        *)
(* sequence is renumbered (Mode "all") or the smallest sufficiently sparse *)
(* aligned range around the colliding item (Mode "range", with the density *)
(* threshold left nondeterministic).  Tags must always increase along the  *)
(* sequence.                                                               *)
(***************************************************************************)
EXTENDS Sequence, TLC

CONSTANTS N, MaxTag, Mode
VARIABLES seq, tag
vars == <<seq, tag>>
Items == 1..N
Init == seq = <<>> /\ tag = [x \in Items |-> -1]

\* renumber items i..j of s evenly from base
Spread(tg, s, i, j, base, inc) ==
    [x \in Items |-> IF \E k \in i..j : s[k] = x THEN base + (SQPos(s, x) - i) * inc ELSE tg[x]]

All(tg, s) == Spread(tg, s, 1, Len(s), 0, MaxTag \div Len(s))

Sizes == {2^k : k \in 0..10}
Ranges(tg, s, p) ==    \* {<<i, j, base, size>>}: aligned ranges around position p
    {<<i, j, b, z>> \in (1..Len(s)) \X (1..Len(s)) \X (0..MaxTag) \X {z \in Sizes : z <= MaxTag + 1} :
       /\ b = (tg[s[p]] \div z) * z
       /\ i <= p /\ p <= j
       /\ \A k \in 1..Len(s) : (k \in i..j) <=> (tg[s[k]] \div z = b \div z)}

Settle(tg, s, p) ==    \* set of possible tag functions after a collision at position p
    IF Mode = "all" THEN {All(tg, s)}
    ELSE {Spread(tg, s, r[1], r[2], r[3], r[4] \div (r[2] - r[1] + 1)) :
            r \in {r \in Ranges(tg, s, p) : r[4] \div (r[2] - r[1] + 1) >= 1}}

First(y) == /\ seq = <<>> /\ seq' = <<y>> /\ tag' = [tag EXCEPT ![y] = MaxTag \div 2]

AfterItem(x, y) ==
    LET p == SQPos(seq, x)
        s == SQInsert(seq, p, y)
        nt == IF p = Len(seq) THEN MaxTag ELSE tag[seq[p + 1]]
        t1 == [tag EXCEPT ![y] = tag[x] + (nt - tag[x] + 1) \div 2]
    IN  /\ seq' = s
        /\ IF t1[y] = nt THEN tag' \in Settle(t1, s, p + 1) ELSE tag' = t1

BeforeFirst(y) ==
    LET s == <<y>> \o seq
        t1 == [tag EXCEPT ![y] = tag[seq[1]] \div 2]
    IN  /\ seq # <<>> /\ seq' = s
        /\ IF t1[y] = tag[seq[1]] THEN tag' \in Settle(t1, s, 1) ELSE tag' = t1

Delete(x) == /\ seq' = SQApply(seq, [op |-> "remove", x |-> x, exc |-> ""])
             /\ tag' = [tag EXCEPT ![x] = -1]

Next == \E y \in Items :
          \/ ~SQMem(seq, y) /\ (First(y) \/ BeforeFirst(y) \/ \E x \in Items : SQMem(seq, x) /\ AfterItem(x, y))
          \/ SQMem(seq, y) /\ Delete(y)
Spec == Init /\ [][Next]_vars
Increasing == \A i \in 1..(Len(seq) - 1) : tag[seq[i]] < tag[seq[i + 1]]
InRange == \A i \in 1..Len(seq) : tag[seq[i]] \in 0..MaxTag
=============================================================================

----------------------------- MODULE MisraGries -----------------------------
(***************************************************************************)
(* The counter scheme itself: at most Slots counters; a key without a free *)
(* slot decrements all counters.  Accuracy 1/Slots.                        *)
(***************************************************************************)
EXTENDS Frequency, TLC, Json, IOUtils
CONSTANTS Keys, Slots, Depth
VARIABLES cnt, st, h
vars == <<cnt, st, h>>
Init == cnt = [k \in {} |-> 0] /\ st = [c |-> [k \in 1..Keys |-> 0], num |-> 1, den |-> Slots] /\ h = <<>>
See(k) ==
    /\ cnt' = IF k \in DOMAIN cnt THEN [cnt EXCEPT ![k] = @ + 1]
              ELSE IF Cardinality(DOMAIN cnt) < Slots
              THEN [j \in DOMAIN cnt \cup {k} |-> IF j = k THEN 1 ELSE cnt[j]]
              ELSE [j \in {j \in DOMAIN cnt : cnt[j] > 1} |-> cnt[j] - 1]
    /\ st' = FQApply(st, [op |-> "add", k |-> k])
    /\ h' = Append(h, k)
Next == /\ Len(h) < Depth /\ \E k \in 1..Keys : See(k)
        /\ IF IOEnv.EMIT = "1" /\ Len(h') = Depth THEN PrintT("GEN " \o ToJson(h')) ELSE TRUE
Spec == Init /\ [][Next]_vars
Contract == FQFails(st, [op |-> "obs", keys |-> SetToSeq(DOMAIN cnt),
                est |-> [k \in 1..Keys |-> IF k \in DOMAIN cnt THEN 1000 * cnt[k] ELSE 0]]) = {}
\* the sharper bound the decrement rule gives: error at most total/(Slots+1)
Sharp == \A k \in 1..Keys : (st.c[k] - (IF k \in DOMAIN cnt THEN cnt[k] ELSE 0)) * (Slots + 1) <= FQTotal(st)
=============================================================================

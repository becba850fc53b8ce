--------------------------- MODULE FlatHeapModel ---------------------------
(***************************************************************************)
(* Implementation-shaped model of the recursive heap: the minimum is kept  *)
(* apart; every other key is split into a high and a low half; a heap of   *)
(* high halves and one heap of low halves per high half.  The sub-heaps    *)
(* are abstract sets here, so this checks one level of the recursion,      *)
(* which is the induction step for all levels.                             *)
(***************************************************************************)
EXTENDS IntHeap, TLC, Sequences, Json, IOUtils

CONSTANTS Half,      \* keys are 0 .. Half*Half-1
          Depth

Keys == 0..(Half * Half - 1)
None == -1

VARIABLES min, hq, lq, abs, h
vars == <<min, hq, lq, abs, h>>

Init == min = None /\ hq = {} /\ lq = [i \in 0..(Half-1) |-> {}] /\ abs = {} /\ h = <<>>

High(x) == x \div Half
Low(x) == x % Half

Add(x0) ==
    /\ abs' = abs \cup {x0}
    /\ IF min = None \/ min = x0
       THEN min' = x0 /\ UNCHANGED <<hq, lq>>
       ELSE LET x == IF x0 < min THEN min ELSE x0 IN
            /\ min' = IF x0 < min THEN x0 ELSE min
            /\ hq' = hq \cup {High(x)}
            /\ lq' = [lq EXCEPT ![High(x)] = @ \cup {Low(x)}]
    /\ h' = Append(h, [a |-> x0])

Drop(hh, ll) == /\ lq' = [lq EXCEPT ![hh] = @ \ {ll}]
                /\ hq' = IF lq[hh] \ {ll} = {} THEN hq \ {hh} ELSE hq

Remove(x) ==
    /\ abs' = abs \ {x}
    /\ IF min = x
       THEN IF hq = {} THEN min' = None /\ UNCHANGED <<hq, lq>>
            ELSE LET hh == Min(hq) ll == Min(lq[hh]) IN
                 min' = hh * Half + ll /\ Drop(hh, ll)
       ELSE /\ min' = min
            /\ IF lq[High(x)] = {} THEN UNCHANGED <<hq, lq>> ELSE Drop(High(x), Low(x))
    /\ h' = Append(h, [r |-> x])

Next == /\ Len(h) < Depth
        /\ \E x \in Keys : Add(x) \/ Remove(x)
        /\ IF IOEnv.EMIT = "1" /\ Len(h') = Depth THEN PrintT("GEN " \o ToJson(h')) ELSE TRUE
Spec == Init /\ [][Next]_vars

Contents == (IF min = None THEN {} ELSE {min})
            \cup UNION {{i * Half + x : x \in lq[i]} : i \in 0..(Half-1)}
Refines == Contents = abs /\ (abs = {} <=> min = None) /\ (abs # {} => min = Min(abs))
HighsExact == hq = {i \in 0..(Half-1) : lq[i] # {}}
View == <<min, hq, lq, abs, Len(h)>>
=============================================================================

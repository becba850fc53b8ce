-------------------------- MODULE BucketQueueScan --------------------------
(***************************************************************************)
(* Implementation-shaped model: buckets by priority and a lower bound on   *)
(* the minimum that scans upward on a pop.  Checked against the abstract   *)
(* queue; emits request histories for replay.                              *)
(***************************************************************************)
EXTENDS BucketQueue, Json, IOUtils

CONSTANTS N, Pris, Depth

VARIABLES pri,      \* function: items present -> priority
          low,      \* lower bound (meaningful while the queue is nonempty)
          h

vars == <<pri, low, h>>
Items == 1..N
PrisQ == {-1, 0, 2}
Buckets == {pri[x] : x \in DOMAIN pri}

Init == pri = BQEmpty /\ low = 0 /\ h = <<>>

Put(x, p) ==
    LET q == BQDrop(pri, x) IN
    /\ pri' = BQPut(q, x, p)
    /\ low' = IF DOMAIN q = {} \/ p < low THEN p ELSE low
    /\ h' = Append(h, [s |-> <<x, p>>])

Del(x) == /\ x \in DOMAIN pri
          /\ pri' = BQDrop(pri, x) /\ UNCHANGED low
          /\ h' = Append(h, [d |-> x])

Pop == /\ DOMAIN pri # {}
       /\ LET lo == Min({p \in Buckets : p >= low}) IN
            \E x \in DOMAIN pri :
              /\ pri[x] = lo
              /\ Assert(BQFails(pri, [op |-> "pop", stop |-> FALSE, x |-> x, haspri |-> TRUE, p |-> lo]) = {},
                        <<"scan misses the minimum", pri, low>>)
              /\ pri' = BQDrop(pri, x)
              /\ low' = lo
       /\ h' = Append(h, [p |-> 1])

Next == /\ Len(h) < Depth
        /\ \/ \E x \in Items, p \in Pris : Put(x, p)
           \/ \E x \in Items : Del(x)
           \/ Pop
        /\ IF IOEnv.EMIT = "1" /\ Len(h') = Depth THEN PrintT("GEN " \o ToJson(h')) ELSE TRUE

Spec == Init /\ [][Next]_vars

LowerBound == \A x \in DOMAIN pri : low <= pri[x]
=============================================================================

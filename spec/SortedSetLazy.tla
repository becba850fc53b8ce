--------------------------- MODULE SortedSetLazy ---------------------------
(***************************************************************************)
(* Implementation-shaped model: the last sorted listing plus the sets of   *)
(* additions and removals since.  Items sort by a key that may change; an  *)
(* update flags the item.  Refines SortedSet; emits histories.             *)
(***************************************************************************)
EXTENDS SortedSet, TLC, Json, IOUtils, FiniteSetsExt

CONSTANTS N, Keys, Depth

VARIABLES set, key, prev, adds, rems, h
vars == <<set, key, prev, adds, rems, h>>
Items == 1..N

Init == set = {} /\ key = [i \in Items |-> 0] /\ prev = <<>> /\ adds = {} /\ rems = {} /\ h = <<>>

Add(x) == /\ set' = set \cup {x}
          /\ adds' = IF prev # <<>> /\ x \notin set THEN adds \cup {x} ELSE adds
          /\ h' = Append(h, [a |-> x])
          /\ UNCHANGED <<key, prev, rems>>
Discard(x) == /\ x \in set
              /\ set' = set \ {x}
              /\ rems' = IF prev # <<>> THEN rems \cup {x} ELSE rems
              /\ adds' = adds \ {x}
              /\ h' = Append(h, [r |-> x])
              /\ UNCHANGED <<key, prev>>
Rekey(x, k) == /\ x \in set
               /\ key' = [key EXCEPT ![x] = k]
               /\ rems' = IF prev # <<>> THEN rems \cup {x} ELSE rems
               /\ adds' = IF prev # <<>> THEN adds \cup {x} ELSE adds
               /\ h' = Append(h, [k |-> <<x, k>>])
               /\ UNCHANGED <<set, prev>>
\* stable sort of a sequence of items by key
SortBy(seq) == SortSeq(seq, LAMBDA a, b : key[a] < key[b])
Listing == IF prev = <<>> THEN SetToSeq(set)
           ELSE SetToSeq(adds) \o SelectSeq(prev, LAMBDA x : x \notin rems)
Iterate == /\ Assert(SSFails([s |-> set, k |-> key], [op |-> "iter", r |-> SortBy(Listing)]) = {},
                     <<"listing differs from the set", set, prev, adds, rems>>)
           /\ prev' = SortBy(Listing)
           /\ adds' = {} /\ rems' = {}
           /\ h' = Append(h, [i |-> 1])
           /\ UNCHANGED <<set, key>>
Next == /\ Len(h) < Depth
        /\ \/ \E x \in Items : Add(x) \/ Discard(x)
           \/ \E x \in Items, k \in Keys : Rekey(x, k)
           \/ Iterate
        /\ IF IOEnv.EMIT = "1" /\ Len(h') = Depth THEN PrintT("GEN " \o ToJson(h')) ELSE TRUE
Spec == Init /\ [][Next]_vars
PendingConsistent == (set \ adds) \subseteq ToSet(prev) \/ prev = <<>>
=============================================================================

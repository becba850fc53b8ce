--------------------------- MODULE PartitionModel ---------------------------
(***************************************************************************)
(* Implementation-shaped model: element -> block map and block -> set map  *)
(* kept separately, refined by collecting hits per block.  Checked against *)
(* the coarsest-refinement semantics: two elements share a block iff no    *)
(* refining set since they were together separated them (sep).             *)
(***************************************************************************)
EXTENDS Partition, TLC, Json, IOUtils
CONSTANTS N, Depth
Elems == 1..N
VARIABLES sets, where, sep, h
vars == <<sets, where, sep, h>>
Pairs == {p \in Elems \X Elems : p[1] < p[2]}
Init == /\ sets = [b \in {1} |-> Elems] /\ where = [x \in Elems |-> 1] /\ sep = {} /\ h = <<>>

Fresh == Cardinality(DOMAIN sets)

RefineBy(S) ==
    LET hit == [b \in {where[x] : x \in S \cap DOMAIN where} |-> {x \in S \cap DOMAIN where : where[x] = b}]
        sp == {b \in DOMAIN hit : hit[b] # sets[b]}
        order == SetToSeq(sp)
        new == [b \in sp |-> Fresh + (CHOOSE i \in 1..Len(order) : order[i] = b)]
    IN  /\ sets' = PRRefine(sets, S, new)
        /\ where' = [x \in DOMAIN where |-> IF where[x] \in sp /\ x \in S THEN new[where[x]] ELSE where[x]]
        /\ sep' = sep \cup {p \in Pairs : p[1] \in DOMAIN where /\ p[2] \in DOMAIN where
                                         /\ (p[1] \in S) # (p[2] \in S)}
        /\ h' = Append(h, [f |-> SetToSeq(S)])
Out(x) == /\ x \in DOMAIN where
          /\ sets' = [sets EXCEPT ![where[x]] = @ \ {x}]
          /\ where' = [y \in DOMAIN where \ {x} |-> where[y]]
          /\ sep' = {p \in sep : x \notin {p[1], p[2]}}
          /\ h' = Append(h, [r |-> x])
In(x, y) == /\ x \notin DOMAIN where /\ y \in DOMAIN where
            /\ sets' = [sets EXCEPT ![where[y]] = @ \cup {x}]
            /\ where' = [z \in DOMAIN where \cup {x} |-> IF z = x THEN where[y] ELSE where[z]]
            \* x now relates to everything as y does
            /\ sep' = sep \cup {p \in Pairs : \E z \in DOMAIN where : {p[1], p[2]} = {x, z} /\ where[z] # where[y]}
            /\ h' = Append(h, [a |-> <<x, y>>])
Next == /\ Len(h) < Depth
        /\ \/ \E S \in SUBSET (Elems \cup {N + 1}) : S # {} /\ RefineBy(S)
           \/ \E x \in Elems : Out(x)
           \/ \E x, y \in Elems : In(x, y)
        /\ IF IOEnv.EMIT = "1" /\ Len(h') = Depth THEN PrintT("GEN " \o ToJson(h')) ELSE TRUE
Spec == Init /\ [][Next]_vars
Consistent == /\ UNION {sets[b] : b \in DOMAIN sets} = DOMAIN where
              /\ \A x \in DOMAIN where : x \in sets[where[x]]
              /\ \A a, b \in DOMAIN sets : a # b => sets[a] \cap sets[b] = {}
Coarsest == \A p \in Pairs : p[1] \in DOMAIN where /\ p[2] \in DOMAIN where =>
                (where[p[1]] = where[p[2]]) = (p \notin sep)
=============================================================================

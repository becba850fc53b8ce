------------------------------ MODULE HeapModel ------------------------------
(***************************************************************************)
(* The heap as storage: every graph owns cells, an operation makes fresh   *)
(* cells, a poke writes one cell.  Under every history the storage shows   *)
(* the heap of values, so no operation shares or changes older graphs.     *)
(***************************************************************************)
EXTENDS GraphTools, Json, IOUtils
CONSTANTS N, Depth
VARIABLES cells, own, heap, hist, first
vars == <<cells, own, heap, hist, first>>
All == {p \in (1..N) \X (1..N) : TRUE}
\* own[i]: vertex -> cell; cells: sequence of neighbour sets
Show(i) == [v |-> DOMAIN own[i], a |-> UNION {{<<x, w>> : w \in cells[own[i][x]]} : x \in DOMAIN own[i]}]
Init == \E a \in SUBSET All :
    /\ cells = [x \in 1..N |-> {w \in 1..N : <<x, w>> \in a}] /\ own = <<[x \in 1..N |-> x]>>
    /\ heap = <<[v |-> 1..N, a |-> a]>> /\ hist = <<>>
    /\ first = [x \in 1..N |-> SetToSeq({w \in 1..N : <<x, w>> \in a})]
Alloc(g) == LET vs == SetToSeq(g.v) IN
    /\ cells' = cells \o [k \in 1..Len(vs) |-> Outs(g, vs[k])]
    /\ own' = Append(own, [x \in g.v |-> Len(cells) + CHOOSE k \in 1..Len(vs) : vs[k] = x])
Step(e) == first' = first /\ heap' = HApply(heap, e) /\ hist' = Append(hist, e)
Next == /\ Len(hist) < Depth
        /\ \/ \E i \in 1..Len(own) : Alloc(Show(i)) /\ Step([op |-> "copy", i |-> i])
           \/ \E i \in 1..Len(own), V \in SUBSET (1..N) : Alloc(Within(Show(i), V)) /\ Step([op |-> "induced", i |-> i, set |-> SetToSeq(V)])
           \/ \E i, j \in 1..Len(own) : i <= j /\ Alloc(Joined({Show(i), Show(j)})) /\ Step([op |-> "union", is |-> <<i, j>>])
           \/ \E i \in 1..Len(own) : \E x \in DOMAIN own[i], y \in DOMAIN own[i], b \in BOOLEAN :
                /\ b # (y \in cells[own[i][x]])
                /\ cells' = [cells EXCEPT ![own[i][x]] = IF b THEN @ \cup {y} ELSE @ \ {y}] /\ own' = own
                /\ Step([op |-> "poke", i |-> i, x |-> x, y |-> y, add |-> b])
Spec == Init /\ [][Next]_vars
Agree == Len(heap) = Len(own) /\ \A i \in 1..Len(own) : Show(i) = heap[i]
Apart == \A i, j \in 1..Len(own) : i # j => {own[i][x] : x \in DOMAIN own[i]} \cap {own[j][x] : x \in DOMAIN own[j]} = {}
Emit == IF IOEnv.EMIT = "1" /\ Len(hist) = Depth THEN PrintT("GEN " \o ToJson([adj |-> first, hist |-> hist])) ELSE TRUE
=============================================================================

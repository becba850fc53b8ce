----------------------------- MODULE LinkedList -----------------------------
(***************************************************************************)
(* Implementation-shaped model: circular doubly linked list with a first   *)
(* pointer, refining the abstract sequence; emits edit histories.          *)
(***************************************************************************)
EXTENDS Sequence, TLC, Json, IOUtils, Functions

CONSTANTS N, Depth
Items == 1..N

VARIABLES nxt, prv, first, abs, h
vars == <<nxt, prv, first, abs, h>>

Init == nxt = <<>> /\ prv = <<>> /\ first = 0 /\ abs = <<>> /\ h = <<>>
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Splice(x, y) ==     \* link y after x
    LET z == nxt[x] IN
    /\ nxt' = With(With(nxt, y, z), x, y)
    /\ prv' = With(With(prv, z, y), y, x)

Do(e) == abs' = SQApply(abs, e)
AppendItem(y) ==
    /\ y \notin DOMAIN nxt
    /\ IF DOMAIN nxt = {} THEN nxt' = With(<<>>, y, y) /\ prv' = With(<<>>, y, y) /\ first' = y
       ELSE Splice(prv[first], y) /\ UNCHANGED first
    /\ Do([op |-> "append", y |-> y, exc |-> ""])
    /\ h' = h \o <<[a |-> y]>>
After(x, y) == /\ x \in DOMAIN nxt /\ y \notin DOMAIN nxt
               /\ Splice(x, y) /\ UNCHANGED first
               /\ Do([op |-> "after", x |-> x, y |-> y, exc |-> ""])
               /\ h' = h \o <<[f |-> <<x, y>>]>>
Before(x, y) == /\ x \in DOMAIN nxt /\ y \notin DOMAIN nxt
                /\ Splice(prv[x], y)
                /\ first' = IF first = x THEN y ELSE first
                /\ Do([op |-> "before", x |-> x, y |-> y, exc |-> ""])
                /\ h' = h \o <<[b |-> <<x, y>>]>>
Unlink(x) == /\ x \in DOMAIN nxt
             /\ LET p == prv[x] z == nxt[x] IN
                /\ nxt' = Without(With(nxt, p, z), x)
                /\ prv' = Without(With(prv, z, p), x)
                /\ first' = IF first = x THEN z ELSE first
             /\ Do([op |-> "remove", x |-> x, exc |-> ""])
             /\ h' = h \o <<[r |-> x]>>
Next == /\ Len(h) < Depth
        /\ \/ \E y \in Items : AppendItem(y) \/ Unlink(y)
           \/ \E x, y \in Items : After(x, y) \/ Before(x, y)
        /\ IF IOEnv.EMIT = "1" /\ Len(h') = Depth THEN PrintT("GEN " \o ToJson(h')) ELSE TRUE
Spec == Init /\ [][Next]_vars

RECURSIVE Walk(_, _)
Walk(x, k) == IF k = 0 THEN <<>> ELSE <<x>> \o Walk(nxt[x], k - 1)
Refines == /\ DOMAIN nxt = DOMAIN prv
           /\ DOMAIN nxt # {} => /\ Walk(first, Cardinality(DOMAIN nxt)) = abs
                                 /\ \A x \in DOMAIN nxt : prv[nxt[x]] = x
           /\ DOMAIN nxt = {} => abs = <<>>
=============================================================================

------------------------------ MODULE EulerModel -----------------------------
(***************************************************************************)
(* One walk around a tree, visiting children in any order.  The walk       *)
(* writes the tour of levels, and folds finished subtrees into their       *)
(* parent.  At every moment the set holding a visited node names the       *)
(* common ancestor with the current node; in the end the shallowest entry  *)
(* between first visits is the common ancestor.                            *)
(***************************************************************************)
EXTENDS Ancestors, Json, IOUtils
CONSTANT N
VARIABLES par, path, tour, rep, seen
vars == <<par, path, tour, rep, seen>>
\* numbered so that a parent comes before its children
Trees(n) == {p \in [1..n -> 0..(n - 1)] : p[1] = 0 /\ \A x \in 2..n : p[x] \in 1..(x - 1)}
Init == /\ par \in UNION {Trees(n) : n \in 1..N} /\ path = <<1>> /\ tour = <<1>> /\ seen = {1}
        /\ rep = [x \in 1..Len(par) |-> x]
Top == Last(path)
Down == \E c \in 1..Len(par) : /\ par[c] = Top /\ c \notin seen
                               /\ path' = Append(path, c) /\ tour' = Append(tour, c) /\ seen' = seen \cup {c} /\ UNCHANGED <<par, rep>>
Up1 == /\ \A c \in 1..Len(par) : par[c] = Top => c \in seen
       /\ Len(path) > 1
       /\ path' = Front(path)
       /\ tour' = Append(tour, par[Top])
       /\ rep' = [x \in 1..Len(par) |-> IF rep[x] = Top THEN par[Top] ELSE rep[x]]
       /\ UNCHANGED <<par, seen>>
Next == Down \/ Up1
Spec == Init /\ [][Next]_vars
Offline == \A x \in seen : rep[x] = Common(par, <<x, Top>>)
Depth(x) == Len(Chain(par, x))
Over == Len(tour) = 2 * Len(par) - 1
Steps == \A k \in 1..(Len(tour) - 1) : Depth(tour[k]) - Depth(tour[k + 1]) \in {1, -1}
Where(x) == Min({k \in 1..Len(tour) : tour[k] = x})
Online == Over => \A x, y \in 1..Len(par) :
    LET i == Min({Where(x), Where(y)})  j == Max({Where(x), Where(y)})
        m == Min({Depth(tour[k]) : k \in i..j}) IN
    {tour[k] : k \in {h \in i..j : Depth(tour[h]) = m}} = {Common(par, <<x, y>>)}
Emit == IF IOEnv.EMIT = "1" /\ Len(tour) = 1 THEN PrintT("GEN " \o ToJson([par |-> par])) ELSE TRUE
=============================================================================

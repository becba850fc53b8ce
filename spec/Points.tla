-------------------------------- MODULE Points -------------------------------
(***************************************************************************)
(* All integer points by distance from the origin.  For every open         *)
(* enumeration the state holds the squared distance reached and the points *)
(* seen at exactly that distance.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

PClause(name, ok) == IF ok THEN {} ELSE {name}
Norm(p) == p[1] * p[1] + p[2] * p[2]
RECURSIVE Root(_, _)
Root(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE Root(n, r + 1)
\* points with lo <= norm < hi
Annulus(lo, hi) == LET k == Root(hi, 0) IN
    UNION {LET a == IF x * x < lo THEN Root(lo - x * x, 0) ELSE 0
               b == IF x * x < hi THEN Root(hi - x * x, 0) ELSE -1 IN
           {p \in {x} \X ((-b..-a) \cup (a..b)) : Norm(p) >= lo /\ Norm(p) < hi} : x \in -k..k}
Closed(vis) == Annulus(0, Norm(CHOOSE p \in vis : \A q \in vis : Norm(q) <= Norm(p))) \subseteq vis

PApply(st, e) ==
    CASE e.op = "open" -> Append(st, [d |-> 0, level |-> {}])
      [] e.op = "take" -> IF e.r = <<>> THEN st ELSE
            LET D == Norm(Last(e.r))
                new == {p \in ToSet(e.r) : Norm(p) = D} IN
            [st EXCEPT ![e.i] = [d |-> D, level |-> IF D = @.d THEN new \cup @.level ELSE new]]
      [] OTHER -> st
PFails(st, e) ==
    CASE e.op = "open" -> {}
      [] e.op = "take" ->
            LET s == st[e.i]
                set == ToSet(e.r)
                D == Norm(Last(e.r)) IN
            PClause("as many as asked for", Len(e.r) = e.n) \cup
            IF e.r = <<>> THEN {} ELSE
            PClause("nondecreasing distance", Norm(e.r[1]) >= s.d /\ \A i \in 1..(Len(e.r) - 1) : Norm(e.r[i]) <= Norm(e.r[i + 1])) \cup
            PClause("no point twice", Cardinality(set) = Len(e.r) /\ set \cap s.level = {}) \cup
            PClause("no point missing", IF D <= e.cap /\ D >= s.d THEN Annulus(s.d, D) \subseteq (set \cup s.level) ELSE FALSE)
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
=============================================================================

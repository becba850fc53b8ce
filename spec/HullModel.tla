------------------------------ MODULE HullModel ------------------------------
(***************************************************************************)
(* Growing the hull of the points seen: every edge keeps the nearest point *)
(* beyond it, the nearest of all is taken next, its edge is split and      *)
(* corners that are no longer convex are merged away.  Any of several      *)
(* equally near points may be taken.                                       *)
(***************************************************************************)
EXTENDS Points
CONSTANT Top
VARIABLES hull, vis
vars == <<hull, vis>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Init == /\ hull = <<[c |-> <<0, 0>>, u |-> <<0, 1>>, b |-> <<-1, 0>>], [c |-> <<0, 1>>, u |-> <<0, -1>>, b |-> <<1, 0>>]>>
        /\ vis = {<<0, 0>>, <<0, 1>>}
Succ(h, i) == IF i = Len(h) THEN 1 ELSE i + 1
Pred(h, i) == IF i = 1 THEN Len(h) ELSE i - 1
Abs(x) == IF x < 0 THEN -x ELSE x
Box(p, u, b) ==
    LET dot == (b[1] - p[1]) * u[1] + (b[2] - p[2]) * u[2]
        k == dot \div Norm(u)
        x == <<b[1] - k * u[1], b[2] - k * u[2]>>
        y == Plus(x, u) IN
    IF Abs(u[1]) + Abs(u[2]) = 1 /\ Norm(y) < Norm(x) THEN y ELSE x
Bent(h, i) == LET u == h[i].u  v == h[Succ(h, i)].u IN u[2] * v[1] - u[1] * v[2] <= 0
\* merge edge i with its successor
Merge(h, i) ==
    LET j == Succ(h, i)
        e == h[i]  f == h[j]
        r == h[Succ(h, j)].c
        g == IF e.u = f.u THEN [e EXCEPT !.b = IF Norm(f.b) < Norm(e.b) THEN f.b ELSE e.b]
             ELSE [c |-> e.c, u |-> Minus(r, e.c), b |-> Plus(Minus(e.c, f.c), r)] IN
    RemoveAt([h EXCEPT ![i] = g], j)
RECURSIVE Before(_, _), After(_, _)
Before(h, i) == LET p == Pred(h, i) IN     \* i: index of the first new edge
    IF Bent(h, p) THEN Before(Merge(h, p), IF p < i THEN p ELSE Len(h) - 1) ELSE [h |-> h, i |-> i]
IndexOf(h, c) == CHOOSE i \in 1..Len(h) : h[i].c = c
After(h, c) == LET i == IndexOf(h, c) IN IF Bent(h, i) THEN After(Merge(h, i), c) ELSE h
Split(h, i) ==
    LET e == h[i]
        q == h[Succ(h, i)].c
        eu == Minus(e.b, e.c)
        fu == Minus(q, e.b)
        e2 == [c |-> e.c, u |-> eu, b |-> Box(e.c, eu, Minus(e.b, e.u))]
        f2 == [c |-> e.b, u |-> fu, b |-> Box(e.b, fu, Plus(q, e.u))]
        h2 == SubSeq(h, 1, i - 1) \o <<e2, f2>> \o SubSeq(h, i + 1, Len(h))
        h3 == Before(h2, i).h IN
    After(h3, e.b)
\* rotate so that equal hulls are equal states
Least(h) == CHOOSE i \in 1..Len(h) : \A j \in 1..Len(h) : h[i].c[1] < h[j].c[1] \/ (h[i].c[1] = h[j].c[1] /\ h[i].c[2] <= h[j].c[2])
Turn(h) == LET i == Least(h) IN SubSeq(h, i, Len(h)) \o SubSeq(h, 1, i - 1)
Next == \E i \in 1..Len(hull) :
    /\ \A j \in 1..Len(hull) : Norm(hull[i].b) <= Norm(hull[j].b)
    /\ Norm(hull[i].b) <= Top
    /\ vis' = vis \cup {hull[i].b}
    /\ hull' = Turn(Split(hull, i))
    /\ Assert(hull[i].b \notin vis, "a point taken twice")
Spec == Init /\ [][Next]_vars
InOrder == Closed(vis)
\* the hull is strictly convex and its corners have been seen
Convex == \A i \in 1..Len(hull) : hull[i].c \in vis /\ hull[i].b \notin vis /\ (Len(hull) > 2 => ~Bent(hull, i))
=============================================================================

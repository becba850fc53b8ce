------------------------------- MODULE Packing -------------------------------
(***************************************************************************)
(* Circle packings of triangulated disks.  A disk is a set of oriented     *)
(* triangles; the flower of an internal circle is the cycle of circles     *)
(* around it.  A packing gives each circle a centre <<x, y>> and a radius. *)
(*                                                                         *)
(* Numbers are fixed point and long (see LongNumbers).  Every comparison   *)
(* is exact in that representation, with a relative margin of one part in  *)
(* 250000 of the squared distance for the quantities that are irrational.  *)
(***************************************************************************)
EXTENDS LongNumbers, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

PClause(name, ok) == IF ok THEN {} ELSE {name}

Sq(a) == LMul(LNorm(a), LNorm(a))
(* |a - b| is at most scale / 250000 *)
Near(a, b, scale) == LLeq(LMul(LNorm(LAbs(LSub(a, b))), <<0, 25>>), LNorm(scale))

(***************************************************************************)
(* Circles: c = [x, y, r]                                                  *)
(***************************************************************************)
Dist2(c, d) == LAdd(Sq(LSub(c.x, d.x)), Sq(LSub(c.y, d.y)))
Outside(c, d) == LET s == Sq(LAdd(c.r, d.r)) IN Near(Dist2(c, d), s, s)
(* d touches c from within *)
Within(c, d) == Near(Dist2(c, d), Sq(LSub(c.r, d.r)), Sq(LAdd(c.r, d.r)))
(* d lies in c, touching or not *)
Encloses(c, d) == /\ LLeq(d.r, c.r)
                  /\ LLeq(LMul(LNorm(Dist2(c, d)), <<0, 25>>), LAdd(LMul(LNorm(Sq(LSub(c.r, d.r))), <<0, 25>>), Sq(LAdd(c.r, d.r))))
Cross(c, d, f) == LSub(LMul(LNorm(LSub(d.x, c.x)), LNorm(LSub(f.y, c.y))), LMul(LNorm(LSub(d.y, c.y)), LNorm(LSub(f.x, c.x))))
(* half plane of d as seen from c: upper is 1 *)
Half(c, d) == LET s == LSign(LSub(d.y, c.y)) IN IF s > 0 \/ (s = 0 /\ LSign(LSub(d.x, c.x)) > 0) THEN 1 ELSE 0
(* f is the cycle of circles around c; turn is 1 or -1: every step turns
   that way by less than half a turn, and the steps go around once *)
Around(c, f, turn) ==
    LET n == Len(f)
        nxt(i) == f[(i % n) + 1]
    IN  /\ \A i \in 1..n : LSign(Cross(c, f[i], nxt(i))) = turn
        /\ Cardinality({i \in 1..n : Half(c, f[i]) = 1 /\ Half(c, nxt(i)) = 0}) = 1

(***************************************************************************)
(* Disks: oriented triangles as triples, each listed in all three turns    *)
(***************************************************************************)
Turns(t) == {t, <<t[2], t[3], t[1]>>, <<t[3], t[1], t[2]>>}
Close(S) == UNION {Turns(t) : t \in S}
VertsOf(S) == {t[1] : t \in S}
NextAround(S, v, w) == {t[3] : t \in {u \in S : u[1] = v /\ u[2] = w}}
Linked(S, v) == {t[2] : t \in {u \in S : u[1] = v}} \cup {t[3] : t \in {u \in S : u[1] = v}}
Inner(S, v) == \A w \in Linked(S, v) : NextAround(S, v, w) # {}
FlowerOf(S, v) ==
    LET n == Cardinality(Linked(S, v))
        step(f, i) == Append(f, CHOOSE x \in NextAround(S, v, f[Len(f)]) : TRUE)
    IN  FoldLeft(step, <<Min(Linked(S, v))>>, [i \in 1..(n - 1) |-> i])
Links(S) == {{t[1], t[2]} : t \in S}

(***************************************************************************)
(* Verdicts.  st.flower[k] is the flower of circle k (<<>> when external), *)
(* st.ext[k] its prescribed radius, st.pack the packing last recorded.     *)
(***************************************************************************)
PBegin(tr) == [flower |-> tr.flower, ext |-> tr.ext, n |-> tr.n, who |-> ToSet(tr.who), pack |-> <<>>]
(* who: the internal circles whose flowers are looked at *)
Touching(flower, who) ==
    UNION {LET f == flower[k] IN {{k, f[i]} : i \in 1..Len(f)} \cup {{f[i], f[(i % Len(f)) + 1]} : i \in 1..Len(f)} : k \in who}
(* o: the circle that surrounds the others, 0 for none *)
Tangent(p, flower, who, o) ==
    \A e \in Touching(flower, who) :
        IF o \in e THEN \A j \in e \ {o} : Within(p[o], p[j])
        ELSE LET a == Min(e) b == Max(e) IN Outside(p[a], p[b])
Oriented(p, flower, who, o) ==
    \E turn \in {1, -1} : \A k \in who :
        k = o \/ (\E i \in 1..Len(flower[k]) : flower[k][i] = o) \/ Around(p[k], [i \in 1..Len(flower[k]) |-> p[flower[k][i]]], turn)
Complete(e, s) == Len(e.pack) = s.n /\ \A k \in 1..s.n : e.pack[k].ok
Positive(p) == \A k \in 1..Len(p) : LSign(p[k].r) > 0
(* radii of q are those of p times one factor: q[k].r * p[j].r = q[j].r * p[k].r *)
SameShape(p, q) == \A k \in 1..Len(p) : LET a == LMul(LNorm(q[k].r), LNorm(p[1].r)) IN Near(a, LMul(LNorm(q[1].r), LNorm(p[k].r)), a)
LeastRadius(p) == CHOOSE k \in 1..Len(p) : \A j \in 1..Len(p) : LLeq(p[k].r, p[j].r)
(* inversion of p about the point c (uu: the product of the units of p and q): centre z - c and radius r
   become radius r / | |z-c|^2 - r^2 |, centre conj(z-c) / (|z-c|^2 - r^2) *)
Power(p, c) == LSub(LAdd(Sq(LSub(p.x, c.x)), Sq(LSub(p.y, c.y))), Sq(p.r))
InvertedAs(p, c, q, uu) ==
    LET w == LNorm(Power(p, c))
        aw == LNorm(LAbs(w))
        lhs(v) == LMul(LNorm(v), w)
        rhs(v) == LMul(LNorm(v), LNorm(uu))
        size == LMul(LNorm(LAdd(LAbs(LSub(p.x, c.x)), LAdd(LAbs(LSub(p.y, c.y)), p.r))), LNorm(uu))
    IN  /\ Near(LMul(LNorm(q.r), aw), rhs(p.r), size)
        /\ Near(lhs(q.x), rhs(LSub(p.x, c.x)), size)
        /\ Near(lhs(q.y), rhs(LSub(c.y, p.y)), size)
(* the least radius of q relative to that of o is at least that of any other
   choice recorded, each given as <<least radius, radius of o>> *)
Best(q, o, among, others) ==
    \A x \in ToSet(others) : \A k \in among :
        LLeq(LMul(LNorm(LMul(LNorm(x[1]), LNorm(q[o].r))), <<9990>>), LMul(LNorm(LMul(LNorm(q[k].r), LNorm(x[2]))), <<0, 1>>))
PFails(s, e) ==
    IF e.op = "raised" THEN {"raised " \o e.exc} ELSE
    IF e.op = "refused" THEN PClause("bad radii and shared names are refused", e.r = TRUE) ELSE
    IF ~Complete(e, s) THEN {"every circle is in the answer"} ELSE
    IF ~Positive(e.pack) THEN {"radii are positive"} ELSE
    CASE e.op = "pack" ->
             PClause("external radii as given", \A k \in 1..s.n : s.flower[k] # <<>> \/ LEq(e.pack[k].r, s.ext[k])) \cup
             PClause("neighbours touch", Tangent(e.pack, s.flower, s.who, 0)) \cup
             PClause("neighbours in cyclic order", Oriented(e.pack, s.flower, s.who, 0))
      [] e.op = "normalize" ->
             PClause("neighbours still touch", Tangent(e.pack, s.flower, s.who, 0)) \cup
             PClause("same shape", SameShape(s.pack, e.pack)) \cup
             PClause("normalised to the target", LET k == IF e.k = 0 THEN LeastRadius(e.pack) ELSE e.k IN Near(e.pack[k].r, e.target, e.target))
      [] e.op = "invert" ->
             PClause("neighbours still touch", Tangent(e.pack, s.flower, s.who, e.inside)) \cup
             PClause("inverted about the point", \A k \in 1..s.n : InvertedAs(s.pack[k], e.c, e.pack[k], e.uu))
      [] e.op = "around" ->
             PClause("neighbours still touch", Tangent(e.pack, s.flower, s.who, e.k)) \cup
             PClause("the circle surrounds the others", \A j \in (1..s.n) \ {e.k} : Encloses(e.pack[e.k], e.pack[j])) \cup
             PClause("least circle as large as any other choice", Best(e.pack, e.k, {j \in 1..s.n : \E i \in 1..Len(e.among) : e.among[i] = j}, e.others))
      [] OTHER -> {"unknown event"}
PApply(s, e) ==
    IF e.op = "pack" THEN [s EXCEPT !.pack = e.pack] ELSE s
=============================================================================

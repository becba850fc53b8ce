-------------------------------- MODULE Walks --------------------------------
(***************************************************************************)
(* Walks in edge-labelled digraphs on which consecutive labels differ.     *)
(* An arc is <<tail, head, label>>.                                        *)
(***************************************************************************)
EXTENDS Graphs

After(A, a) == {b \in A : b[1] = a[2] /\ b[3] # a[3]}
RECURSIVE WGrow(_, _, _)
WGrow(A, front, seen) == IF front = {} THEN seen
    ELSE LET nx == (UNION {After(A, a) : a \in front}) \ seen IN WGrow(A, nx, seen \cup nx)
First(A, v, l) == {a \in A : a[1] = v /\ a[3] = l}
ReachPairs(A, v, l) == {<<a[2], a[3]>> : a \in WGrow(A, First(A, v, l), First(A, v, l))}
CyclicArcs(A) == {a \in A : a \in WGrow(A, After(A, a), After(A, a))}
\* number of arcs of a shortest walk, 0 if there is none
RECURSIVE WDist(_, _, _, _, _)
WDist(A, front, seen, goal, k) == IF front = {} THEN 0
    ELSE IF \E a \in front : <<a[2], a[3]>> = goal THEN k
    ELSE LET nx == (UNION {After(A, a) : a \in front}) \ seen IN WDist(A, nx, seen \cup nx, goal, k + 1)
ShortLen(A, v, l, w, m) == WDist(A, First(A, v, l), First(A, v, l), <<w, m>>, 1)
\* labels possible on the last arc of a walk along the vertices p starting with label l
Ends(A, p, l) == FoldLeft(LAMBDA L, i : {x \in {a[3] : a \in {a \in A : a[1] = p[i] /\ a[2] = p[i + 1]}} :
                                              IF i = 1 THEN x = l ELSE \E y \in L : y # x},
                          {}, [i \in 1..(Len(p) - 1) |-> i])

WKFails(st, e) ==
    LET A == st.a IN
    CASE e.op = "verts" -> GClause("vertices listed once each", IsInjective(e.r) /\ ToSet(e.r) = st.v)
      [] e.op = "labels" -> GClause("labels at a vertex",
                IsInjective(e.r) /\ ToSet(e.r) = {a[3] : a \in {a \in A : a[1] = e.v \/ a[2] = e.v}})
      [] e.op = "has" -> GClause("membership", e.r <=> e.v \in st.v)
      [] e.op = "cyclic" -> GClause("cyclic edges exact", IsInjective(e.r) /\ {<<x[1], x[2], x[3]>> : x \in ToSet(e.r)} = CyclicArcs(A))
      [] e.op = "reach" -> GClause("reachable ends exact",
                IsInjective(e.r) /\ {<<x[1], x[2]>> : x \in ToSet(e.r)} = ReachPairs(A, e.v, e.l))
      [] e.op = "short" ->
            LET d == ShortLen(A, e.v, e.l, e.w, e.m) IN
            GClause("a path is returned exactly when one exists", d # 0) \cup
            (IF d = 0 THEN {} ELSE
             GClause("ends of the walk", Len(e.r) >= 2 /\ e.r[1] = e.v /\ e.r[Len(e.r)] = e.w) \cup
             GClause("a walk with differing consecutive labels", Len(e.r) >= 2 /\ e.m \in Ends(A, e.r, e.l)) \cup
             GClause("shortest", Len(e.r) = d + 1))
      [] e.op = "noshort" -> GClause("a path is returned exactly when one exists", ShortLen(A, e.v, e.l, e.w, e.m) = 0)
      [] e.op = "same" -> GClause("the argument is left unchanged", e.r)
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
WKApply(st, e) == st
=============================================================================

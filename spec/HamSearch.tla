----------------------------- MODULE HamSearch -----------------------------
(***************************************************************************)
(* Backtracking search for Hamiltonian cycles: edges are forced into the   *)
(* cycle or removed from the graph, deductions are applied in any order,   *)
(* and when none applies the search branches on any undecided edge.  On    *)
(* every graph of the family the cycles found so far together with the     *)
(* completions of the open subproblems are exactly the cycles of the       *)
(* graph, each represented once; so at the end each is listed once.        *)
(***************************************************************************)
EXTENDS Hamilton, TLC, Json, IOUtils
CONSTANTS N, MinDeg
VARIABLES g, todo, found
vars == <<g, todo, found>>
Init == /\ g \in {h \in AllGraphs(N) : \A v \in 1..N : Cardinality(h[v]) \in MinDeg..3}
        /\ todo = <<[f |-> {}, r |-> {}]>> /\ found = <<>>
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson(JG(g))) ELSE TRUE
Cur == todo[Len(todo)]
Rest == SubSeq(todo, 1, Len(todo) - 1)
Left(x) == Edges(g) \ x.r
At(E, v) == {e \in E : v \in e}
Shape(E) == [v \in V(g) |-> {w \in V(g) : {v, w} \in E /\ w # v}]
\* a forced cycle that misses a vertex
ShortCycle(x) == \E v \in V(g) : LET s == Shape(x.f) C == Reach(s, v) IN
                     (\A w \in C : Cardinality(s[w]) = 2) /\ C # V(g)
Dead(x) == \/ x.f \cap x.r # {}
           \/ \E v \in V(g) : Cardinality(At(Left(x), v)) < 2 \/ Cardinality(At(x.f, v)) > 2
           \/ ShortCycle(x)
Done(x) == ~Dead(x) /\ \A v \in V(g) : Cardinality(At(x.f, v)) = 2
Two(x) == {v \in V(g) : Cardinality(At(Left(x), v)) = 2 /\ ~(At(Left(x), v) \subseteq x.f)}
Third(x) == {v \in V(g) : Cardinality(At(x.f, v)) = 2 /\ Cardinality(At(Left(x), v)) = 3}
\* a triangle entered by a forced edge at a vertex of degree three: the opposite side is used
Tri(x) == {t \in (V(g) \X V(g) \X V(g)) : t[1] # t[2] /\ t[2] # t[3] /\ t[1] # t[3] /\ N > 3
              /\ {t[1], t[2]} \in Left(x) /\ {t[2], t[3]} \in Left(x) /\ {t[1], t[3]} \in Left(x)
              /\ {t[2], t[3]} \notin x.f
              /\ \E u \in V(g) \ {t[2], t[3]} : {t[1], u} \in x.f}
Put(xs) == todo' = Rest \o xs /\ UNCHANGED <<g, found>>
Next == /\ todo # <<>>
        /\ IF Dead(Cur) THEN Put(<<>>)
           ELSE IF Done(Cur) THEN todo' = Rest /\ found' = Append(found, Cur.f) /\ UNCHANGED g
           ELSE IF Two(Cur) \cup Third(Cur) # {} \/ Tri(Cur) # {}
           THEN \/ \E v \in Two(Cur) : Put(<<[Cur EXCEPT !.f = @ \cup At(Left(Cur), v)]>>)
                \/ \E v \in Third(Cur) : Put(<<[Cur EXCEPT !.r = @ \cup (At(Left(Cur), v) \ Cur.f)]>>)
                \/ \E t \in Tri(Cur) : Put(<<[Cur EXCEPT !.f = @ \cup {{t[2], t[3]}}]>>)
           ELSE \E e \in Left(Cur) \ Cur.f : Put(<<[Cur EXCEPT !.f = @ \cup {e}], [Cur EXCEPT !.r = @ \cup {e}]>>)
Spec == Init /\ [][Next]_vars
Completions(x) == {c \in HamCycles(g) : x.f \subseteq c /\ x.r \cap c = {}}
Partition == /\ ToSet(found) \cup UNION {Completions(todo[i]) : i \in 1..Len(todo)} = HamCycles(g)
             /\ Len(found) + FoldLeft(LAMBDA a, x : a + Cardinality(Completions(x)), 0, todo) = Cardinality(HamCycles(g))
=============================================================================

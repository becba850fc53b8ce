----------------------------- MODULE LexBfsModel -----------------------------
(***************************************************************************)
(* Lexicographic breadth-first search by partition refinement: an ordered  *)
(* list of cells, a vertex of the first cell is taken, every cell is split *)
(* with its neighbours in front.  On every N-vertex graph and every choice *)
(* of vertex: the order obeys the lexicographic rule, and its reverse is a *)
(* perfect elimination order exactly for chordal graphs; also that greedy  *)
(* simplicial elimination decides the chordless-cycle definition.          *)
(***************************************************************************)
EXTENDS GraphOrders, TLC, Json, IOUtils
CONSTANT N
VARIABLES g, cells, o
vars == <<g, cells, o>>
Init == /\ g \in AllGraphs(N) /\ cells = <<1..N>> /\ o = <<>>
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson(JG(g))) ELSE TRUE
Split(cs, S) == SelectSeq(FlattenSeq([i \in 1..Len(cs) |-> <<cs[i] \cap S, cs[i] \ S>>]), LAMBDA c : c # {})
Next == /\ cells # <<>>
        /\ \E v \in cells[1] :
             /\ o' = Append(o, v)
             /\ cells' = Split([cells EXCEPT ![1] = @ \ {v}], g[v])
             /\ g' = g
Spec == Init /\ [][Next]_vars
Lex == LexRule(g, o)
\* cells hold the unlisted vertices by their adjacency to the listed ones
Cells == \A i \in 1..Len(cells) : \A x, y \in cells[i] : \A j \in 1..Len(o) : (o[j] \in g[x]) = (o[j] \in g[y])
Elim == Len(o) = N => (PerfectElimination(g, Reverse(o)) = ChordalDef(g))
Def == o = <<>> => Chordal(g) = ChordalDef(g)
=============================================================================

------------------------------ MODULE SolveModel -----------------------------
(***************************************************************************)
(* A solver that narrows down the digits possible in each cell, by single  *)
(* cells, single places, alignments, locked sets of digits, full placements*)
(* of one digit, chains of forced alternatives and, when the puzzle is     *)
(* known to have one solution, avoidance of ambiguous rectangles.  The     *)
(* rules may be applied in any order; no solution may ever be lost.        *)
(***************************************************************************)
EXTENDS Sudoku, FiniteSetsExt
CONSTANTS Few, Most, Slice, Rules
Sum(S) == FoldSet(LAMBDA x, a : x * x + 3 * a, 0, S)
VARIABLES puz, sols, can
vars == <<puz, sols, can>>
unique == Cardinality(sols) = 1

Base == {<<1, 2, 3, 4, 3, 4, 1, 2, 2, 1, 4, 3, 4, 3, 2, 1>>, <<1, 2, 3, 4, 3, 4, 1, 2, 2, 3, 4, 1, 4, 1, 2, 3>>, <<1, 2, 3, 4, 3, 4, 2, 1, 2, 1, 4, 3, 4, 3, 1, 2>>}
RowsOK == {s \in [1..4 -> Digits] : Cardinality({s[i] : i \in 1..4}) = 4}
\* every complete grid, row by row
Halves == {a \o b : a \in RowsOK, b \in RowsOK}
Top == {h \in Halves : \A x \in 1..8 : \A y \in (x + 1)..8 : (h[x] = h[y]) => y \notin Peers[x]}
All == {g \in {a \o b : a \in Top, b \in Top} : ~Clash(g)}
Half(q, k) == {h \in Top : \A i \in 1..8 : q[i + k] = 0 \/ q[i + k] = h[i]}
Sols(q) == {s \in {a \o b : a \in Half(q, 0), b \in Half(q, 8)} : ~Clash(s)}
Init == /\ \E g \in Base : \E S \in UNION {kSubset(k, Cells) : k \in Few..Most} : (Sum(S) % Slice = 0) /\ puz = [c \in Cells |-> IF c \in S THEN g[c] ELSE 0]
        /\ sols = Sols(puz)
        /\ can = [c \in Cells |-> IF puz[c] # 0 THEN {puz[c]} ELSE {d \in Digits : Fits(puz, c, d)}]
At(k, d) == {c \in Group[k] : d \in can[c]}
\* a rule gives the pairs <<cell, digit>> it rules out; everything it finds is dropped at once
Drop(given) == LET out == TLCEval(given) IN /\ can' = [c \in Cells |-> can[c] \ {d \in Digits : <<c, d>> \in out}] /\ can' # can /\ UNCHANGED <<puz, sols>>
Put(c, d) == {<<c, e>> : e \in Digits \ {d}} \cup {<<x, d>> : x \in Peers[c]}
Sure == {q \in Cells \X Digits : can[q[1]] = {q[2]} \/ \E k \in DOMAIN Group : At(k, q[2]) = {q[1]}}
Single == UNION {Put(q[1], q[2]) : q \in Sure}
Align == UNION {(Group[q[2]] \ Group[q[1]]) \X {q[3]} : q \in {q \in (DOMAIN Group) \X (DOMAIN Group) \X Digits : q[1] # q[2] /\ At(q[1], q[3]) \subseteq Group[q[2]]}}
Room(k, D) == UNION {At(k, d) : d \in D}
Locked == UNION {Room(q[1], q[2]) \X (Digits \ q[2]) : q \in {q \in (DOMAIN Group) \X (kSubset(2, Digits) \cup kSubset(3, Digits)) : Cardinality(Room(q[1], q[2])) = Cardinality(q[2])}}
Patterns == {S \in kSubset(4, Cells) : \A k \in DOMAIN Group : Cardinality(S \cap Group[k]) = 1}
Full == UNION {(Cells \ UNION {S \in Patterns : \A c \in S : d \in can[c]}) \X {d} : d \in Digits}
\* literals <<c, d, v>>; what follows at once from one
Follows(l) == IF l[3] THEN {<<l[1], e, FALSE>> : e \in can[l[1]] \ {l[2]}} \cup {<<x, l[2], FALSE>> : x \in {x \in Peers[l[1]] : l[2] \in can[x]}}
              ELSE {<<x, l[2], TRUE>> : x \in {x \in Cells \ {l[1]} : \E k \in DOMAIN Group : l[1] \in Group[k] /\ At(k, l[2]) = {l[1], x}}} \cup
                   {<<l[1], e, TRUE>> : e \in {e \in Digits \ {l[2]} : can[l[1]] = {l[2], e}}}
Lits == {<<c, d, v>> : c \in Cells, d \in Digits, v \in BOOLEAN}
RECURSIVE Closure(_, _, _)
Closure(F, L, new) == LET M == UNION {F[l] : l \in new} \ L IN IF M = {} THEN L ELSE Closure(F, L \cup M, M)
Absurd(F, l) == LET L == Closure(F, {l}, {l}) IN \E m \in L : <<m[1], m[2], ~m[3]>> \in L
Open == {q \in Cells \X Digits : q[2] \in can[q[1]] /\ Cardinality(can[q[1]]) > 1}
Chain == LET F == TLCEval([l \in {l \in Lits : l[2] \in can[l[1]]} |-> Follows(l)]) IN
    UNION {Put(q[1], q[2]) : q \in {q \in Open : Absurd(F, <<q[1], q[2], FALSE>>)}} \cup {q \in Open : Absurd(F, <<q[1], q[2], TRUE>>)}
Corners == {S \in kSubset(4, Cells) : /\ Cardinality({RowOf(c) : c \in S}) = 2 /\ Cardinality({ColOf(c) : c \in S}) = 2 /\ Cardinality({BoxOf(c) : c \in S}) = 2}
Rectangle == IF ~unique THEN {} ELSE UNION {{q[1]} \X q[2] : q \in {q \in Cells \X kSubset(2, Digits) :
    \E S \in Corners : q[1] \in S /\ (\A x \in S : puz[x] = 0) /\ \A x \in S \ {q[1]} : can[x] \subseteq q[2]}}
Next == \E r \in Rules : Drop(CASE r = "single" -> Single [] r = "align" -> Align [] r = "locked" -> Locked
                                [] r = "full" -> Full [] r = "chain" -> Chain [] r = "rectangle" -> Rectangle)
Spec == Init /\ [][Next]_vars
Kept_ == \A s \in sols : \A c \in Cells : s[c] \in can[c]
\* the guided search finds what a list of all grids has
FirstBlank(g) == CHOOSE c \in Cells : g[c] = 0 /\ \A x \in Cells : x < c => g[x] # 0
Guided(q) == FoldLeft(LAMBDA a, i : IF a.stack = <<>> THEN a ELSE SearchStep(a, <<FirstBlank(Last(a.stack).g), 0, 0>>),
                      [ok |-> TRUE, stack |-> <<[g |-> q, left |-> Blanks(q)]>>, sols |-> {}], [i \in 1..400 |-> i])
Meaning == (Sum({c \in Cells : puz[c] # 0}) % 7 = 0 /\ can = [c \in Cells |-> IF puz[c] # 0 THEN {puz[c]} ELSE {d \in Digits : Fits(puz, c, d)}])
           => LET x == Guided(puz) IN Finished(x) => x.sols = sols
ASSUME Cardinality(All) = 288
=============================================================================

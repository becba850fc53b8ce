------------------------------ MODULE SolverRest -----------------------------
(***************************************************************************)
(* When a solver has nothing more to say.  For each of its rules the pairs *)
(* of a cell and a digit are given that the rule, read from its            *)
(* description, still decides in a state; a solver that reports no         *)
(* progress with a selection of rules must be in a state where none of     *)
(* them decides anything.                                                  *)
(***************************************************************************)
EXTENDS SolverLog, FiniteSetsExt
Groups == 1..(3 * N)
Crowd(m) == Cardinality({d \in Digits : Has(m, d)})
\* conclusions are triples <<c, d, v>>: digit d is placed at c, or ruled out there
LocateSays(can, grid) == UNION {UNION {LET a == Where(can, k, d) IN IF Cardinality(a) = 1 THEN {<<c, d, TRUE>> : c \in {c \in a : grid[c] # d}} ELSE {} : d \in Digits} : k \in Groups}
EliminateSays(can, grid) == {<<c, d, TRUE>> : <<c, d>> \in {<<c, d>> \in Cells \X Digits : grid[c] = 0 /\ can[c] = Bit[d]}}
Out(can, S, D) == {<<c, d, FALSE>> : <<c, d>> \in {<<c, d>> \in S \X D : Has(can[c], d)}}
\* the places in one group lie in another
Meet == {<<k, m>> \in Groups \X Groups : k # m /\ Cardinality(Group[k] \cap Group[m]) = B}
AlignSays(can) == UNION {UNION {LET a == Where(can, km[1], d) IN IF Cardinality(a) > 1 /\ a \subseteq Group[km[2]] THEN Out(can, Group[km[2]] \ a, {d}) ELSE {} : d \in Digits} : km \in Meet}
PairSays(can) ==
    LET two == TLCEval({<<d, P>> \in UNION {{<<d, Where(can, k, d)>> : k \in Groups} : d \in Digits} : Cardinality(P) = 2}) IN
    UNION {UNION {IF b[2] = a[2] /\ b[1] > a[1] THEN Out(can, a[2], Digits \ {a[1], b[1]}) ELSE {} : b \in two} : a \in two}
TriadSays(can) == UNION {LET T == Group[km[1]] \cap Group[km[2]]
                             forced == {d \in Digits : Where(can, km[1], d) \subseteq T \/ Where(can, km[2], d) \subseteq T} IN
                         IF Cardinality(forced) = B THEN Out(can, T, Digits \ forced) \cup Out(can, (Group[km[1]] \cup Group[km[2]]) \ T, forced) ELSE {} : km \in {km \in Meet : km[1] > km[2]}}
\* placements of all digits in one group: sets of cells used by the first digits, and by the last ones
Used(can, S, F, d) == UNION {{u \cup {c} : c \in {c \in S \ u : Has(can[c], d)}} : u \in F}
GroupSays(can, k) ==
    LET S == Group[k]
        up == TLCEval(FoldLeft(LAMBDA a, d : Append(a, TLCEval(Used(can, S, Last(a), d))), <<{{}}>>, [d \in 1..N |-> d]))
        down == TLCEval(FoldLeft(LAMBDA a, i : Append(a, TLCEval(Used(can, S, Last(a), N + 1 - i))), <<{{}}>>, [d \in 1..N |-> d])) IN
    Out(can, S, Digits) \ {<<c, d, FALSE>> : <<c, d>> \in {<<c, d>> \in S \X Digits : Has(can[c], d) /\ \E u \in up[d] : c \notin u /\ (S \ (u \cup {c})) \in down[N + 1 - d]}}
SubproblemSays(can) == UNION {GroupSays(can, k) : k \in Groups}
\* one digit over the rows: columns and boxes used by the first rows, and by the last ones
Rows(can, d, F, r) == UNION {{<<f[1] \cup {ColOf(x)}, f[2] \cup {BoxOf(x)}>> : x \in {x \in Group[r] : Has(can[x], d) /\ ColOf(x) \notin f[1] /\ BoxOf(x) \notin f[2]}} : f \in F}
DigitSays(can, d) ==
    LET up == TLCEval(FoldLeft(LAMBDA a, r : Append(a, TLCEval(Rows(can, d, Last(a), r))), <<{<<{}, {}>>}>>, [r \in 1..N |-> r]))
        down == TLCEval(FoldLeft(LAMBDA a, r : Append(a, TLCEval(Rows(can, d, Last(a), N + 1 - r))), <<{<<{}, {}>>}>>, [r \in 1..N |-> r])) IN
    {<<c, d, FALSE>> : c \in {c \in Cells : Has(can[c], d) /\ ~\E f \in up[RowOf(c) + 1] : ColOf(c) \notin f[1] /\ BoxOf(c) \notin f[2] /\
        <<(0..(N - 1)) \ (f[1] \cup {ColOf(c)}), (0..(N - 1)) \ (f[2] \cup {BoxOf(c)})>> \in {<<g[1], g[2]>> : g \in down[N - RowOf(c)]}}}
NishioSays(can) == UNION {DigitSays(can, d) : d \in Digits}
\* rectangles in two boxes whose corners are blank in the puzzle: when three corners have the same two digits only, the fourth has neither
Corners == {S \in {{N * r + k + 1, N * r + m + 1, N * q + k + 1, N * q + m + 1} : <<r, q, k, m>> \in (0..(N - 1)) \X (0..(N - 1)) \X (0..(N - 1)) \X (0..(N - 1))} :
                Cardinality(S) = 4 /\ Cardinality({BoxOf(c) : c \in S}) = 2}
RectangleSays(can, puzzle) == UNION {UNION {IF (\A x \in S : puzzle[x] = 0) /\ (\E m \in {can[x] : x \in S \ {c}} : Crowd(m) = 2 /\ \A x \in S \ {c} : can[x] = m)
                                            THEN LET m == can[CHOOSE x \in S : x # c] IN Out(can, {c}, {d \in Digits : Has(m, d)}) ELSE {} : c \in S} : S \in Corners}
Filled(grid, q) == FoldLeft(LAMBDA a, x : TLCEval(IF x[3] THEN [a EXCEPT ![x[1]] = x[2]] ELSE a), grid, SetToSeq(q))
Drawn(can, q) == FoldLeft(LAMBDA a, x : TLCEval(IF x[3] THEN Placed(a, x[1], x[2]) ELSE Prevented(a, x[2], {x[1]})), can, SetToSeq(q))
\* a world is a choice of digits for some cells that breaks no rule and leaves no two-way alternative undecided;
\* two-way alternatives decide nothing if every possible digit of an open cell is chosen in one world and not in another
World(can, w) ==
    /\ \A p \in w : Has(can[p[1]], p[2])
    /\ \A c \in Cells : Cardinality({p \in w : p[1] = c}) <= 1 /\ (Crowd(can[c]) = 2 => \E p \in w : p[1] = c)
    /\ \A k \in Groups : \A d \in Digits : LET a == Where(can, k, d) n == Cardinality({p \in w : p[2] = d /\ p[1] \in a}) IN n <= 1 /\ (Cardinality(a) = 2 => n = 1)
Undecided(can, worlds) ==
    /\ \A i \in DOMAIN worlds : World(can, ToSet(worlds[i]))
    /\ LET all == UNION {ToSet(worlds[i]) : i \in DOMAIN worlds} IN
       \A c \in {c \in Cells : Crowd(can[c]) > 1} : \A d \in Digits : Has(can[c], d) => <<c, d>> \in all /\ \E i \in DOMAIN worlds : <<c, d>> \notin ToSet(worlds[i])

Says(r, st, e) ==
    CASE r = "locate" -> LocateSays(e.can, e.grid)
      [] r = "eliminate" -> EliminateSays(e.can, e.grid)
      [] r = "align" -> AlignSays(e.can)
      [] r = "pair" -> PairSays(e.can)
      [] r = "triad" -> TriadSays(e.can)
      [] r = "subproblem" -> SubproblemSays(e.can)
      [] r = "nishio" -> NishioSays(e.can)
      [] r = "rectangle" -> IF st.unique THEN RectangleSays(e.can, st.puzzle) ELSE {}
      [] OTHER -> {}
Chance(sol, grid, can) == \A c \in Cells : Has(can[c], sol[c]) /\ (grid[c] = 0 \/ grid[c] = sol[c])
RStart0(tr) == IF Assert(Solved(tr.sol) /\ Extends(tr.sol, tr.puzzle), "not a solution") THEN [puzzle |-> tr.puzzle, sol |-> tr.sol, unique |-> tr.unique, grid |-> tr.puzzle, can |-> Open(tr.puzzle)] ELSE <<>>
RApply(st, e) == IF e.op \in {"made", "removed", "step"} THEN [st EXCEPT !.grid = e.grid, !.can = e.can] ELSE st
RFails(st, e) ==
    CASE e.op = "made" -> SClause("possible digits of a new puzzle", e.grid = st.puzzle /\ e.can = Open(st.puzzle))
      [] e.op = "removed" -> SClause("ruled out as asked", e.grid = st.grid /\ e.can = FoldLeft(LAMBDA a, p : Prevented(a, p[2], {p[1]}), st.can, e.what))
      [] e.op = "step" ->
            SClause("tells of progress", e.r = (e.can # st.can \/ e.grid # st.grid)) \cup
            (IF e.r \/ ~Chance(st.sol, e.grid, e.can) THEN {}
             ELSE UNION {SClause("nothing left for " \o r, Says(r, st, e) = {}) : r \in ToSet(e.rules)} \cup
                  SClause("nothing left for twosat", "twosat" \in ToSet(e.rules) => Undecided(e.can, e.worlds)))
      [] e.op = "bad" -> SClause("no contradiction while a solution is possible", ~Chance(st.sol, st.grid, st.can))
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
=============================================================================

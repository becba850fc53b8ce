-------------------------------- MODULE Sudoku -------------------------------
(***************************************************************************)
(* Puzzles with boxes of side B.  A grid is a sequence of digits, 0 for an *)
(* empty cell.  The state of a solver is its grid and, for every cell, the *)
(* digits still possible there.  The solutions are found here by a search  *)
(* whose choice of where to branch is only guided from outside: the        *)
(* alternatives at every branching are computed, so none can be left out.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANT B

SClause(name, ok) == IF ok THEN {} ELSE {name}
N == B * B
Digits == 1..N
Cells == 1..(N * N)
RowOf(c) == (c - 1) \div N
ColOf(c) == (c - 1) % N
BoxOf(c) == B * (RowOf(c) \div B) + (ColOf(c) \div B)
\* groups in order: rows, columns, boxes
Group == [k \in 1..(3 * N) |-> {c \in Cells : IF k <= N THEN RowOf(c) = k - 1 ELSE IF k <= 2 * N THEN ColOf(c) = k - N - 1 ELSE BoxOf(c) = k - 2 * N - 1}]
Peers == [c \in Cells |-> {p \in Cells : p # c /\ (RowOf(p) = RowOf(c) \/ ColOf(p) = ColOf(c) \/ BoxOf(p) = BoxOf(c))}]
Clash(g) == \E c \in Cells : g[c] # 0 /\ \E p \in Peers[c] : g[p] = g[c]
Blanks(g) == Cardinality({c \in Cells : g[c] = 0})
Solved(g) == Blanks(g) = 0 /\ ~Clash(g)
Extends(s, g) == \A c \in Cells : g[c] = 0 \/ g[c] = s[c]

Fits(g, c, d) == g[c] = 0 /\ \A p \in Peers[c] : g[p] # d
\* a branching h = <<c, 0, 0>> tries every digit of a cell, <<0, k, d>> every cell of group k for digit d
Sensible(g, h) == IF h[1] # 0 THEN g[h[1]] = 0 ELSE \A c \in Group[h[2]] : g[c] # h[3]
Ways(g, h) == IF h[1] # 0 THEN SetToSortSeq({<<h[1], d>> : d \in {d \in Digits : Fits(g, h[1], d)}}, LAMBDA a, b : a[2] > b[2])
              ELSE SetToSortSeq({<<c, h[3]>> : c \in {c \in Group[h[2]] : Fits(g, c, h[3])}}, LAMBDA a, b : a[1] > b[1])
SearchStep(st, h) ==
    IF st.stack = <<>> THEN [st EXCEPT !.ok = FALSE] ELSE
    LET top == Last(st.stack)
        ways == Ways(top.g, h)
        next == [i \in 1..Len(ways) |-> [g |-> [top.g EXCEPT ![ways[i][1]] = ways[i][2]], left |-> top.left - 1]] IN
    IF ~Sensible(top.g, h) THEN [st EXCEPT !.ok = FALSE]
    ELSE [ok |-> st.ok,
          stack |-> Front(st.stack) \o (IF top.left = 1 THEN <<>> ELSE next),
          sols |-> IF top.left = 1 THEN st.sols \cup {next[i].g : i \in 1..Len(next)} ELSE st.sols]
Searched(g, hints) ==
    IF Clash(g) THEN [ok |-> TRUE, stack |-> <<>>, sols |-> {}]
    ELSE IF Blanks(g) = 0 THEN [ok |-> TRUE, stack |-> <<>>, sols |-> {g}]
    ELSE FoldLeft(SearchStep, [ok |-> TRUE, stack |-> <<[g |-> g, left |-> Blanks(g)]>>, sols |-> {}], hints)
Finished(x) == x.ok /\ x.stack = <<>>

\* possible digits of a cell as a number: bit d - 1 for digit d
Bit == [d \in Digits |-> 2 ^ (d - 1)]
Has(m, d) == (m \div Bit[d]) % 2 = 1
Within(m, k) == \A d \in Digits : Has(m, d) => Has(k, d)
\* rows and columns move within and between bands, the whole may be reflected, digits are renamed
IsPerm(p, S) == DOMAIN p = S /\ {p[x] : x \in S} = S
Banded(p) == IsPerm(p, 1..N) /\ \A x \in 1..N : \A y \in 1..N : ((x - 1) \div B = (y - 1) \div B) <=> ((p[x] - 1) \div B = (p[y] - 1) \div B)
Moved(e, c) == LET r == e.rows[RowOf(c) + 1]  k == e.cols[ColOf(c) + 1] IN IF e.flip THEN N * (k - 1) + r ELSE N * (r - 1) + k
IsMove(e, old, new) == /\ Banded(e.rows) /\ Banded(e.cols) /\ IsPerm(e.digits, Digits) /\ Len(new) = N * N
                       /\ \A c \in Cells : new[Moved(e, c)] = (IF old[c] = 0 THEN 0 ELSE e.digits[old[c]])
HalfTurn(g) == \A c \in Cells : (g[c] = 0) <=> (g[N * N + 1 - c] = 0)

\* state: solutions to be kept, grid, possible digits
Keep(st) == IF st.unique /\ Cardinality(st.sols) # 1 THEN {} ELSE st.sols
SApply(st, e) == IF e.op \in {"made", "step"} THEN [st EXCEPT !.grid = e.grid, !.can = e.can] ELSE st
Kept(st, e) ==
    SClause("every solution still possible", \A s \in Keep(st) : \A c \in Cells : Has(e.can[c], s[c])) \cup
    SClause("every placement agrees with every solution", \A s \in Keep(st) : Extends(s, e.grid)) \cup
    SClause("a placed digit is impossible beside it", \A c \in Cells : e.grid[c] # 0 => \A p \in Peers[c] : ~Has(e.can[p], e.grid[c]))
SFails(st, e) ==
    CASE e.op = "made" ->
            SClause("grid as given", e.grid = st.puzzle) \cup Kept(st, e)
      [] e.op = "step" ->
            Kept(st, e) \cup
            SClause("only narrows down", \A c \in Cells : Within(e.can[c], st.can[c]) /\ (st.grid[c] # 0 => e.grid[c] = st.grid[c])) \cup
            SClause("tells of progress", e.r = (e.can # st.can \/ e.grid # st.grid))
      [] e.op = "bad" -> SClause("contradiction only without solutions", IF st.unique THEN Cardinality(st.sols) # 1 ELSE st.sols = {})
      [] e.op = "complete" -> SClause("complete when filled", e.r = (Blanks(st.grid) = 0))
      [] e.op = "all" -> SClause("exactly the solutions", ToSet(e.r) = st.sols) \cup SClause("no solution twice", Cardinality(ToSet(e.r)) = Len(e.r))
      [] e.op = "unisolvent" -> SClause("unique or not", e.r = (Cardinality(st.sols) = 1))
      [] e.op = "printed" -> SClause("printed as it is", e.r = e.of)
      [] e.op = "read" -> SClause("read as written", e.r = st.puzzle)
      [] e.op = "move" -> SClause("same puzzle rearranged", e.found /\ IsMove(e, st.puzzle, e.r)) \cup
                          SClause("symmetry kept", (e.keep /\ HalfTurn(st.puzzle)) => HalfTurn(e.r))
      [] e.op = "generated" -> SClause("one solution", Cardinality(st.sols) = 1) \cup SClause("symmetric as asked", e.symmetric => HalfTurn(st.puzzle))
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
=============================================================================

------------------------------ MODULE SolverLog ------------------------------
(***************************************************************************)
(* The account a solver gives of its work.  Reading it from the beginning, *)
(* every message is a transition on the grid, on the digits possible in    *)
(* each cell and on the stack of trial branches; a reader who knows only   *)
(* the puzzle and the messages must at every point arrive at the solver's  *)
(* own state, and the grounds given for a message must be true when given. *)
(***************************************************************************)
EXTENDS Sudoku
\* what the contents of a grid leave possible
Open(g) == [c \in Cells |-> IF g[c] # 0 THEN Bit[g[c]] ELSE FoldLeft(LAMBDA a, d : IF Fits(g, c, d) THEN a + Bit[d] ELSE a, 0, [d \in 1..N |-> d])]
Without(m, d) == IF Has(m, d) THEN m - Bit[d] ELSE m
Where(can, k, d) == {c \in Group[k] : Has(can[c], d)}
Placed(can, c, d) == [x \in Cells |-> IF x = c THEN Bit[d] ELSE IF x \in Peers[c] THEN Without(can[x], d) ELSE can[x]]
Prevented(can, d, S) == [x \in Cells |-> IF x \in S THEN Without(can[x], d) ELSE can[x]]

\* can the places left for a digit be completed to one in each row, column and box when its place in the row of c is c?
\* forward over the rows, with the columns used and the boxes used
Onward(can, d, c, F, r) == {<<f[1] \cup {ColOf(x)}, f[2] \cup {BoxOf(x)}>> : <<f, x>> \in {<<f, x>> \in F \X {x \in Group[r] : Has(can[x], d) /\ (RowOf(c) = r - 1 => x = c)} : ColOf(x) \notin f[1] /\ BoxOf(x) \notin f[2]}}
Completes(can, d, c) == FoldLeft(LAMBDA F, r : TLCEval(Onward(can, d, c, F, r)), {<<{}, {}>>}, [r \in 1..N |-> r]) # {}

\* grounds for placing d at c, or for preventing d in the cells S
Claim(can, w) == \A d \in ToSet(w.digits) : \E k \in ToSet(w.groups) : Where(can, k, d) \subseteq ToSet(w.cells)
True_(st, w, d, S) ==
    CASE w.kind = "only" -> w.digit = d /\ \A c \in S : Where(st.can, w.group, d) = {c}
      [] w.kind = "last" -> \A c \in S : st.can[c] = Bit[d]
      [] w.kind = "conflict" -> Where(st.can, w.group, d) \subseteq ToSet(w.cells) /\ \A c \in S : ToSet(w.cells) \subseteq Peers[c]
      [] w.kind = "room" -> Claim(st.can, w) /\ d \notin ToSet(w.digits) /\ Len(w.digits) >= Len(w.cells) /\ S \subseteq ToSet(w.cells)
      [] w.kind = "elsewhere" -> Claim(st.can, w) /\ d \in ToSet(w.digits) /\ Len(w.digits) >= Len(w.cells) /\ S \cap ToSet(w.cells) = {}
      [] w.kind = "few" -> /\ \A p \in ToSet(w.parts) : Claim(st.can, p)
                           /\ \A c \in S : \E p \in ToSet(w.parts) : d \notin ToSet(p.digits) /\ c \in ToSet(p.cells) /\ Len(p.cells) <= Len(p.digits)
      [] w.kind = "cover" -> \A c \in S : ~Completes(st.can, d, c)
      [] OTHER -> TRUE

\* state: puzzle as read so far; frames of the branches above; what the next message has to be
LStart0(puzzle) == [grid |-> puzzle, can |-> Open(puzzle), stack |-> <<>>, steps |-> 0, inside |-> FALSE, moved |-> FALSE, over |-> "", due |-> <<>>, names |-> {}, seen |-> [grid |-> puzzle, can |-> Open(puzzle)], call |-> <<>>]
LApply(st, e) ==
    CASE e.op = "place" -> [st EXCEPT !.grid[e.c] = e.d, !.can = Placed(@, e.c, e.d), !.moved = TRUE, !.due = <<>>,
                                      !.stack = IF st.due = <<"place">> THEN [@ EXCEPT ![Len(@)].first = <<e.d, e.c>>] ELSE @]
      [] e.op = "prevent" -> [st EXCEPT !.can = Prevented(@, e.d, ToSet(e.cells)), !.moved = TRUE, !.due = <<>>]
      [] e.op = "begin" -> [st EXCEPT !.steps = e.k, !.inside = TRUE, !.moved = FALSE]
      [] e.op = "end" -> [st EXCEPT !.inside = FALSE, !.names = @ \cup {e.rule}]
      [] e.op = "idle" -> [st EXCEPT !.inside = FALSE]
      [] e.op = "unable" -> [st EXCEPT !.over = "unable"]
      [] e.op = "contradiction" -> [st EXCEPT !.over = "done", !.inside = FALSE]
      [] e.op = "found" -> [st EXCEPT !.over = "found"]
      [] e.op = "branch" -> [st EXCEPT !.stack = Append(@, [grid |-> st.grid, can |-> st.can, first |-> <<0, 0>>]), !.can = Open(st.grid), !.due = <<"place">>]
      [] e.op = "back" -> LET f == Last(st.stack) IN [st EXCEPT !.grid = f.grid, !.can = f.can, !.stack = Front(@), !.due = <<"prevent", f.first[1], f.first[2]>>, !.over = ""]
      [] e.op = "yield" -> [st EXCEPT !.over = "done"]
      [] e.op = "call" -> [st EXCEPT !.call = <<e.d, e.c>>, !.over = ""]
      [] e.op = "state" -> [st EXCEPT !.seen = [grid |-> e.grid, can |-> e.can]]
      [] OTHER -> st
Going(st) == st.over = "" /\ st.due = <<>>
LFails(st, e) ==
    CASE e.op = "place" ->
            SClause("messages in order", st.over = "" /\ st.due \in {<<>>, <<"place">>}) \cup
            SClause("placed where possible", st.grid[e.c] = 0 /\ Has(st.can[e.c], e.d)) \cup
            SClause("grounds are true", True_(st, e.why, e.d, {e.c}))
      [] e.op = "prevent" ->
            SClause("messages in order", st.over = "" /\ (IF st.due = <<>> THEN TRUE ELSE st.due = <<"prevent", e.d, e.cells[1]>> /\ Len(e.cells) = 1)) \cup
            SClause("prevented where still possible", e.cells # <<>> /\ Cardinality(ToSet(e.cells)) = Len(e.cells) /\ \A c \in ToSet(e.cells) : Has(st.can[c], e.d)) \cup
            SClause("grounds are true", True_(st, e.why, e.d, ToSet(e.cells)))
      [] e.op = "begin" -> SClause("messages in order", Going(st) /\ ~st.inside) \cup SClause("iterations counted", e.k = st.steps + 1)
      [] e.op = "end" -> SClause("messages in order", Going(st) /\ st.inside) \cup SClause("iterations counted", e.k = st.steps) \cup SClause("success means a change", st.moved)
      [] e.op = "idle" -> SClause("messages in order", Going(st) /\ st.inside) \cup SClause("iterations counted", e.k = st.steps) \cup SClause("no progress means no change", ~st.moved)
      [] e.op = "unable" ->
            SClause("messages in order", Going(st)) \cup
            SClause("grounds are true",
                CASE e.why = "holds" -> st.grid[e.c] = e.x /\ e.x # e.d
                  [] e.why = "gone" -> ~Has(st.can[e.c], e.d)
                  [] e.why = "group" -> Where(st.can, e.k, e.d) = {}
                  [] e.why = "cell" -> st.grid[e.c] = 0 /\ st.can[e.c] = 0)
      [] e.op = "contradiction" -> SClause("messages in order", st.over \in {"", "unable"} /\ st.due = <<>> /\ st.inside)
      [] e.op = "found" -> SClause("messages in order", Going(st) /\ ~st.inside) \cup SClause("found when filled", Solved(st.grid))
      [] e.op = "branch" -> SClause("messages in order", Going(st) /\ ~st.inside)
      [] e.op = "back" -> SClause("messages in order", st.over = "done" /\ st.stack # <<>>) \cup
                          SClause("the trial placement undone", st.stack # <<>> /\ Last(st.stack).first = <<e.d, e.c>>)
      [] e.op = "yield" -> SClause("messages in order", st.over = "found") \cup SClause("solution as told", e.r = st.grid)
      [] e.op = "finished" -> SClause("messages in order", st.over = "done" /\ st.stack = <<>>)
      [] e.op = "call" -> {}
      [] e.op = "refused" -> SClause("refused exactly when impossible", LET d == st.call[1]  c == st.call[2] IN
                                 e.r = (st.seen.grid[c] # d /\ (st.seen.grid[c] # 0 \/ ~Has(st.seen.can[c], d)))) \cup
                             SClause("refusals are told", e.r = (st.over = "unable"))
      [] e.op = "state" -> SClause("contents as told", e.grid = st.grid) \cup SClause("possibilities as told", e.can = st.can) \cup
                           SClause("rules as told", ToSet(e.rules) = st.names)
      [] e.op = "bad" -> SClause("messages in order", st.over \in {"", "unable"})
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
=============================================================================

------------------------------- MODULE Program -------------------------------
(***************************************************************************)
(* The command-line program.  A run reads a puzzle (or makes one), may     *)
(* rearrange it, solves it, and shows grids and a report; what is shown is *)
(* decided by the options.  Options: t translate only, b search for all    *)
(* solutions, u no assumption of uniqueness, both puzzle and solution,     *)
(* g generate, a without symmetry, p rearrange, report for text formats.   *)
(***************************************************************************)
EXTENDS Sudoku
ShowsPuzzle(o) == o.t \/ o.both \/ o.g
ShowsSolution(o) == o.both \/ (~o.t /\ ~o.g)
Part1(o, e) == IF ShowsPuzzle(o) /\ e.shown # <<>> THEN <<e.shown[1]>> ELSE <<>>
Part2(o, e) == SubSeq(e.shown, Len(Part1(o, e)) + 1, Len(e.shown))
Sound(o, sols) == o.u \/ Cardinality(sols) = 1
Filled(R) == R # <<>> /\ \A i \in DOMAIN R : Blanks(R[i]) = 0
Simple == {"locate", "eliminate"}
Levels == <<"easy", "moderate", "tricky", "difficult", "evil", "fiendish">>
Rank(x) == CHOOSE i \in DOMAIN Levels : Levels[i] = x
PApply(st, e) == IF e.op = "level" THEN [st EXCEPT !.seen = @ \cup {<<ToSet(e.rules), e.level>>}] ELSE st
RanFails(st, e) ==
    LET o == e.opts
        R == Part2(o, e)
        used == ToSet(e.rules) IN
    SClause("ends normally", e.status = 0) \cup
    (IF o.zero \/ o.wrong THEN SClause("nothing but the blank grid or a notice", e.shown = (IF o.wrong THEN <<>> ELSE <<[c \in Cells |-> 0]>>) /\ e.level = "")
     ELSE
       SClause("puzzle shown when asked for", ShowsPuzzle(o) => (e.shown # <<>> /\ e.shown[1] = st.puzzle)) \cup
       SClause("one solution when generated", o.g => Cardinality(st.sols) = 1) \cup
       SClause("symmetric when generated so", (o.g /\ ~o.a) => HalfTurn(st.puzzle)) \cup
       SClause("same puzzle rearranged", o.p => (e.found /\ IsMove(e, st.orig, st.puzzle))) \cup
       SClause("solutions only when asked for", ~ShowsSolution(o) => R = <<>>) \cup
       (IF ~ShowsSolution(o) THEN {}
        ELSE IF o.b THEN SClause("exactly the solutions", Sound(o, st.sols) => ToSet(R) = st.sols) \cup
                         SClause("no solution twice", Cardinality(ToSet(R)) = Len(R)) \cup
                         SClause("only solutions", \A i \in DOMAIN R : R[i] \in st.sols)
        ELSE SClause("one result", Len(R) = 1 \/ (Len(R) = 0 /\ st.sols = {})) \cup
             SClause("result agrees with the puzzle", \A i \in DOMAIN R : Extends(R[i], st.puzzle)) \cup
             SClause("result agrees with the solutions", (Sound(o, st.sols) /\ R # <<>>) => \A s \in st.sols : Extends(s, R[1]))) \cup
       (IF ~e.report THEN SClause("report with text only", e.level = "")
        ELSE SClause("impossible exactly when not found by deduction", IF ShowsSolution(o) THEN (e.level = "impossible") = ("backtrack" \in used \/ ~Filled(R)) ELSE ("backtrack" \in used => e.level = "impossible")) \cup
             SClause("easy exactly by the simplest rules", (e.level = "easy") <=> (used \subseteq Simple /\ e.level # "impossible")) \cup
             SClause("a known level", e.level \in {Levels[i] : i \in DOMAIN Levels} \cup {"impossible"}) \cup
             SClause("number of solutions told", ShowsSolution(o) => (IF Len(R) = 1 THEN e.count = -1 ELSE e.count = Len(R))) \cup
             SClause("trial and error only when asked for", "backtrack" \in used => o.b) \cup
             SClause("puzzle and solution set apart", o.both => e.apart)))
PFails(st, e) ==
    CASE e.op = "ran" -> RanFails(st, e)
      [] e.op = "level" -> SClause("harder rules never make it easier",
            \A x \in st.seen : /\ x[1] \subseteq ToSet(e.rules) => Rank(x[2]) <= Rank(e.level)
                               /\ ToSet(e.rules) \subseteq x[1] => Rank(e.level) <= Rank(x[2]))
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
=============================================================================

----------------------------- MODULE ProgramModel ----------------------------
(***************************************************************************)
(* A run of the program on small puzzles: options are chosen, the puzzle is*)
(* read, deductions are made in any order and number, a search follows if  *)
(* asked for, and the report is written.  Every run shows what its options *)
(* ask for.  The option sets are emitted and given to the real program.    *)
(***************************************************************************)
EXTENDS Program, Json, IOUtils, FiniteSetsExt
CONSTANT Slip
Holes == {{}, {1}, {1, 2, 5, 6}, {1, 6, 11, 16}, {1, 2, 3, 4, 9}, {1, 2, 9, 10}, {3, 4, 15, 16}, {6, 7, 10, 11, 16}, {1, 2, 5, 9, 10, 13}}
ASSUME B = 2
Base == <<1, 2, 3, 4, 3, 4, 1, 2, 2, 1, 4, 3, 4, 3, 2, 1>>
Fillings(p) == LET H == {c \in Cells : p[c] = 0} IN {g \in {[c \in Cells |-> IF c \in H THEN f[c] ELSE p[c]] : f \in [H -> Digits]} : ~Clash(g)}
Dug == {[c \in Cells |-> IF c \in H THEN 0 ELSE Base[c]] : H \in Holes}
Puzzles == Dug \cup UNION {{[p EXCEPT ![q[1]] = q[2]] : q \in {q \in Cells \X Digits : Fits(p, q[1], q[2])}} : p \in Dug}
SolsOf == [p \in Puzzles |-> Fillings(p)]
VARIABLES opts, puz, work, done, lines, used
vars == <<opts, puz, work, done, lines, used>>
Options == [t : BOOLEAN, b : BOOLEAN, u : BOOLEAN, both : BOOLEAN, g : {FALSE}, a : {FALSE}, p : {FALSE}, zero : BOOLEAN, wrong : BOOLEAN, text : BOOLEAN]
Init == /\ opts \in Options /\ puz \in Puzzles
        /\ work = puz /\ done = "reading" /\ lines = <<>> /\ used = {}
Read == /\ done = "reading" /\ UNCHANGED <<opts, puz, work, used>>
        /\ done' = IF opts.zero \/ opts.wrong THEN "over" ELSE "solving"
        /\ lines' = IF opts.wrong THEN <<>> ELSE IF opts.zero THEN <<[c \in Cells |-> 0]>> ELSE IF ShowsPuzzle(opts) THEN <<puz>> ELSE <<>>
\* single cells and single places stand for the deductions
Sure(g) == {q \in Cells \X Digits : Fits(g, q[1], q[2]) /\ (\/ \A d \in Digits \ {q[2]} : ~Fits(g, q[1], d)
                                                           \/ \E k \in DOMAIN Group : q[1] \in Group[k] /\ \A x \in Group[k] \ {q[1]} : ~Fits(g, x, q[2]))}
Deduce == /\ done = "solving"
          /\ \E q \in Sure(work) : work' = [work EXCEPT ![q[1]] = q[2]] /\ \E r \in Simple : used' = used \cup {r}
          /\ UNCHANGED <<opts, puz, done, lines>>
Stop == /\ done = "solving" /\ Sure(work) = {} /\ UNCHANGED <<opts, puz, work>>
        /\ done' = "over"
        /\ LET all == IF opts.b THEN {s \in Fillings(puz) : Extends(s, work)} ELSE {work} IN
           /\ used' = IF opts.b /\ Blanks(work) > 0 THEN used \cup {"backtrack"} ELSE used
           /\ lines' = IF ShowsSolution(opts) \/ Slip THEN lines \o SetToSeq(all) ELSE lines
Next == Read \/ Deduce \/ Stop
Spec == Init /\ [][Next]_vars
Event == [op |-> "ran", opts |-> opts, status |-> 0, shown |-> lines, rules |-> SetToSeq(used), apart |-> TRUE, found |-> FALSE,
          report |-> opts.text /\ ~opts.zero /\ ~opts.wrong,
          level |-> IF ~opts.text \/ opts.zero \/ opts.wrong THEN "" ELSE IF "backtrack" \in used \/ Blanks(work) > 0 THEN "impossible" ELSE "easy",
          count |-> IF Len(Part2(opts, [shown |-> lines])) = 1 THEN -1 ELSE Len(Part2(opts, [shown |-> lines]))]
Shown == done = "over" => PFails([puzzle |-> puz, orig |-> puz, sols |-> SolsOf[puz], seen |-> {}], Event) = {}
Emit == IF IOEnv.EMIT = "1" /\ done = "over" /\ puz = Base THEN PrintT("GEN " \o ToJson(opts)) ELSE TRUE
=============================================================================

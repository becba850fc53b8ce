------------------------------- MODULE RestGen -------------------------------
(***************************************************************************)
(* Puzzles of full size with a few blank cells, in which some of the       *)
(* possible digits are ruled out one after another.  Every state reached   *)
(* is a starting point for the rules of the real solver; here the rules    *)
(* are followed, all conclusions at once, until they are at rest.          *)
(***************************************************************************)
EXTENDS SolverRest, Json, IOUtils
CONSTANTS Given, Slice
ASSUME B = 3
Sol == [c \in Cells |-> ((3 * (RowOf(c) % 3) + (RowOf(c) \div 3) + ColOf(c)) % 9) + 1]
Blank == <<{c \in Cells : Sol[c] \in {1, 2}},
           {c \in Cells : Sol[c] \in {1, 2, 3}},
           {c \in Cells : Sol[c] \in {2, 5, 8} /\ BoxOf(c) # 4},
           {c \in Cells : Sol[c] \in {1, 4, 6, 7} /\ BoxOf(c) \in {0, 1, 3, 4, 8}},
           {c \in Cells : BoxOf(c) \in {0, 1, 2}},
           {c \in Cells : ColOf(c) \in {0, 1, 4} /\ Sol[c] # 5}>>
VARIABLES which, out, can, grid, going
vars == <<which, out, can, grid, going>>
Puzzle(i) == [c \in Cells |-> IF c \in Blank[i] THEN 0 ELSE Sol[c]]
Init == which \in DOMAIN Blank /\ out = <<>> /\ grid = Puzzle(which) /\ can = Open(grid) /\ going = ""
Code(p) == p[1] * 9 + p[2]
RuleOut == /\ going = "" /\ Len(out) < Given
           /\ \E c \in Blank[which] : \E d \in Digits \ {Sol[c]} :
                /\ Has(can[c], d) /\ (out # <<>> => Code(Last(out)) < Code(<<c, d>>))
                /\ out' = Append(out, <<c, d>>) /\ can' = Prevented(can, d, {c})
           /\ UNCHANGED <<which, grid, going>>
Rules == <<"locate", "eliminate", "align", "pair", "triad", "subproblem", "nishio">>
Chosen == FoldLeft(LAMBDA a, p : a * 3 + Code(p), which, out)
Follow == /\ Chosen % Slice = 0
          /\ going' = IF going = "" THEN Rules[((Chosen \div Slice) % Len(Rules)) + 1] ELSE going
          /\ \E q \in {Says(going', [unique |-> FALSE], [can |-> can, grid |-> grid])} :
                q # {} /\ grid' = Filled(grid, q) /\ can' = Drawn(can, q)
          /\ UNCHANGED <<which, out>>
Next == RuleOut \/ Follow
Spec == Init /\ [][Next]_vars
Kept_ == Chance(Sol, grid, can)
Emit == IF IOEnv.EMIT = "1" /\ Chosen % Slice = 0 /\ going = "" THEN PrintT("GEN " \o ToJson([grid |-> Puzzle(which), sol |-> Sol, out |-> out, turn |-> Chosen \div Slice])) ELSE TRUE
=============================================================================

------------------------------ MODULE RestModel ------------------------------
(***************************************************************************)
(* A solver on small puzzles, in which possible digits are ruled out from  *)
(* outside and the rules draw their conclusions in any order.              *)
(* The solution stays possible, no two conclusions are at odds, and what   *)
(* the rules have left to say is what their plain readings say.            *)
(***************************************************************************)
EXTENDS SolverRest
CONSTANTS Clues, Given, Wide
ASSUME B = 2
Sol == <<1, 2, 3, 4, 3, 4, 1, 2, 2, 3, 4, 1, 4, 1, 2, 3>>
SomeClues == {{1, 6, 11, 16}, {1, 2, 7, 12, 13}, {3, 4, 9, 14}}
MoreClues == {S \in kSubset(5, Cells) : FoldSet(LAMBDA x, a : x * x + 3 * a, 0, S) % 37 = 0}
Rules == {"locate", "eliminate", "align", "pair", "triad", "subproblem", "nishio"}
VARIABLES puz, grid, can, out, moved
vars == <<puz, grid, can, out, moved>>
Init == /\ \E S \in Clues : puz = [c \in Cells |-> IF c \in S THEN Sol[c] ELSE 0]
        /\ grid = puz /\ can = Open(puz) /\ out = 0 /\ moved = FALSE
RuleOut == /\ out < Given /\ ~moved /\ out' = out + 1
           /\ \E c \in Cells : \E d \in Digits \ {Sol[c]} : Has(can[c], d) /\ can' = Prevented(can, d, {c})
           /\ UNCHANGED <<puz, grid, moved>>
Now == [can |-> can, grid |-> grid]
Me == [unique |-> FALSE, puzzle |-> puz]
Draw == \E r \in Rules : \E q \in {Says(r, Me, Now)} :
    /\ q # {} /\ grid' = Filled(grid, q) /\ can' = Drawn(can, q)
    /\ moved' = TRUE /\ UNCHANGED <<puz, out>>
Next == RuleOut \/ (Wide /\ Draw)
Spec == Init /\ [][Next]_vars
Kept_ == Chance(Sol, grid, can)
\* plain readings
Patterns == {S \in kSubset(4, Cells) : \A k \in Groups : Cardinality(S \cap Group[k]) = 1}
Fills(k) == {f \in [Digits -> Group[k]] : \A d \in Digits : \A e \in Digits : d # e => f[d] # f[e]}
FillsOf == [k \in Groups |-> Fills(k)]
PlainNishio == {<<c, d, FALSE>> : <<c, d>> \in {<<c, d>> \in Cells \X Digits : Has(can[c], d) /\ ~\E S \in Patterns : c \in S /\ \A x \in S : Has(can[x], d)}}
PlainGroup(k) == LET ok == {f \in FillsOf[k] : \A d \in Digits : Has(can[f[d]], d)} IN
                 {<<c, d, FALSE>> : <<c, d>> \in {<<c, d>> \in Group[k] \X Digits : Has(can[c], d) /\ ~\E f \in ok : f[d] = c}}
Openings == {<<c, d>> \in Cells \X Digits : Has(can[c], d) /\ Crowd(can[c]) > 1}
\* every way to choose from the open cells that is a world
Settled == {<<c, d>> \in Cells \X Digits : can[c] = Bit[d]}
Worlds == {w \in {S \cup Settled : S \in SUBSET Openings} : World(can, w)}
\* what follows from one alternative
Lits == {<<q, v>> : q \in {q \in Cells \X Digits : Has(can[q[1]], q[2])}, v \in BOOLEAN}
Follows(l) == LET c == l[1][1] d == l[1][2] IN
    IF l[2] THEN {<<<<c, e>>, FALSE>> : e \in {e \in Digits \ {d} : Has(can[c], e)}} \cup {<<<<x, d>>, FALSE>> : x \in {x \in Peers[c] : Has(can[x], d)}}
    ELSE {<<<<c, e>>, TRUE>> : e \in {e \in Digits \ {d} : can[c] = Bit[d] + Bit[e]}} \cup
         {<<<<x, d>>, TRUE>> : x \in {x \in Peers[c] : \E k \in Groups : Where(can, k, d) = {c, x}}}
RECURSIVE Closing(_, _, _)
Closing(F, L, new) == LET M == UNION {F[l] : l \in new} \ L IN IF M = {} THEN L ELSE Closing(F, L \cup M, M)
Meaning ==
    /\ NishioSays(can) = PlainNishio
    /\ \A k \in Groups : GroupSays(can, k) = PlainGroup(k)
    /\ AlignSays(can) \subseteq NishioSays(can)
    /\ (Openings # {} /\ Cardinality(Openings) <= 7 /\ LocateSays(can, grid) = {} /\ EliminateSays(can, grid) = {}) =>
        LET F == TLCEval([l \in Lits |-> Follows(l)])
            absurd(l) == LET L == Closing(F, {l}, {l}) IN \E m \in L : <<m[1], ~m[2]>> \in L
            W == TLCEval(Worlds) IN
        \A q \in Openings : /\ absurd(<<q, TRUE>>) <=> \A w \in W : q \notin w
                            /\ absurd(<<q, FALSE>>) <=> \A w \in W : q \in w
\* conclusions never place one digit and rule it out at the same place
Agree == LET all == UNION {Says(r, Me, Now) : r \in Rules} IN \A q \in all : <<q[1], q[2], ~q[3]>> \notin all
=============================================================================

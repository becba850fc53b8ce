------------------------------- MODULE LogModel ------------------------------
(***************************************************************************)
(* A solver that places and rules out digits, opens trial branches on a    *)
(* copy of its contents and takes them back, next to a reader who sees     *)
(* only its messages.  The reader always knows the solver's state.         *)
(***************************************************************************)
EXTENDS SolverLog, Json, IOUtils
CONSTANTS Free, Tried, Ruled, Depth, Branches, Copies
ASSUME B = 3
Pattern == [c \in Cells |-> ((3 * (RowOf(c) % 3) + (RowOf(c) \div 3) + ColOf(c)) % 9) + 1]
Start_ == [c \in Cells |-> IF c \in Free \/ (Pattern[c] \in {1, 2} /\ RowOf(c) \in {0, 3, 6}) THEN 0 ELSE Pattern[c]]
VARIABLES own, reader, calls, fails
vars == <<own, reader, calls, fails>>
\* own: the solver's frames, innermost last
Init == /\ own = <<[grid |-> Start_, can |-> Open(Start_), first |-> <<0, 0>>]>>
        /\ reader = LStart0(Start_)
        /\ calls = <<>> /\ fails = {}
Top == Last(own)
Say(es) == LET x == FoldLeft(LAMBDA a, e : [s |-> LApply(a.s, e), f |-> a.f \cup LFails(a.s, e)], [s |-> reader, f |-> {}], es) IN
           reader' = x.s /\ fails' = x.f
None == [kind |-> "none"]
Put(c, d) ==
    /\ calls' = Append(calls, <<"place", d, <<c>>>>)
    /\ IF Top.grid[c] = d THEN UNCHANGED <<own, reader, fails>>
       ELSE IF Top.grid[c] # 0 THEN UNCHANGED own /\ Say(<<[op |-> "call", d |-> d, c |-> c], [op |-> "unable", why |-> "holds", d |-> d, c |-> c, x |-> Top.grid[c]], [op |-> "refused", r |-> TRUE]>>)
       ELSE IF ~Has(Top.can[c], d) THEN UNCHANGED own /\ Say(<<[op |-> "call", d |-> d, c |-> c], [op |-> "unable", why |-> "gone", d |-> d, c |-> c], [op |-> "refused", r |-> TRUE]>>)
       ELSE /\ own' = [own EXCEPT ![Len(own)].grid[c] = d, ![Len(own)].can = Placed(@, c, d)]
            /\ Say(<<[op |-> "call", d |-> d, c |-> c], [op |-> "place", d |-> d, c |-> c, why |-> None]>>)
Ban(d, S) ==
    LET there == {c \in S : Has(Top.can[c], d)} IN
    /\ calls' = Append(calls, <<"unplace", d, SetToSeq(S)>>)
    /\ own' = [own EXCEPT ![Len(own)].can = Prevented(@, d, S)]
    /\ IF there = {} THEN UNCHANGED <<reader, fails>> ELSE Say(<<[op |-> "call", d |-> d, c |-> 1], [op |-> "prevent", d |-> d, cells |-> SetToSeq(there), why |-> None]>>)
\* a trial on a copy: of the contents only, or with Copies of everything, as a reader would not expect
Try(c, d) ==
    /\ Len(own) <= Branches /\ Top.grid[c] = 0 /\ Has(Top.can[c], d) /\ Fits(Top.grid, c, d)
    /\ LET new == [grid |-> Top.grid, can |-> IF Copies THEN Top.can ELSE Open(Top.grid), first |-> <<d, c>>] IN
       own' = Append(own, [new EXCEPT !.grid[c] = d, !.can = Placed(@, c, d)])
    /\ calls' = Append(calls, <<"try", d, <<c>>>>)
    /\ Say(<<[op |-> "call", d |-> d, c |-> c], [op |-> "branch"], [op |-> "place", d |-> d, c |-> c, why |-> None]>>)
Return ==
    /\ Len(own) > 1
    /\ own' = LET f == Top.first IN [Front(own) EXCEPT ![Len(own) - 1].can = Prevented(@, f[1], {f[2]})]
    /\ calls' = Append(calls, <<"return", 0, <<>>>>)
    /\ Say(<<[op |-> "call", d |-> 1, c |-> 1], [op |-> "begin", k |-> reader.steps + 1], [op |-> "contradiction"], [op |-> "back", d |-> Top.first[1], c |-> Top.first[2]], [op |-> "prevent", d |-> Top.first[1], cells |-> <<Top.first[2]>>, why |-> None]>>)
Next == /\ Len(calls) < Depth
        /\ \/ \E c \in Free : \E d \in Tried : Put(c, d)
           \/ \E d \in Ruled : \E S \in (SUBSET Free) \ {{}} : Cardinality(S) <= 2 /\ Ban(d, S)
           \/ \E c \in Free : \E d \in Tried : Try(c, d)
           \/ Return
Spec == Init /\ [][Next]_vars
Known == reader.grid = Top.grid /\ reader.can = Top.can
Frames == /\ Len(reader.stack) = Len(own) - 1
          /\ \A i \in 1..(Len(own) - 1) : reader.stack[i].grid = own[i].grid /\ reader.stack[i].can = own[i].can /\ reader.stack[i].first = own[i + 1].first
\* the reader's record of what was seen before a call is only kept by the recorder, so refusals are judged there
Proper == fails \subseteq {"refused exactly when impossible"}
Plain == \A i \in DOMAIN calls : calls[i][1] \in {"place", "unplace"}
Emit == IF IOEnv.EMIT = "1" /\ Len(calls) = Depth /\ Plain THEN PrintT("GEN " \o ToJson([calls |-> calls, grid |-> Start_])) ELSE TRUE
=============================================================================

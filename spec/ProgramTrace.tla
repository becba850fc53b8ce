----------------------------- MODULE ProgramTrace ----------------------------
EXTENDS TraceBase, Program
PStart(tr) == LET x == Searched(tr.puzzle, tr.hints) IN
    IF Assert(Finished(x), "search not finished") THEN [puzzle |-> tr.puzzle, orig |-> tr.orig, sols |-> x.sols, seen |-> {}] ELSE <<>>
=============================================================================

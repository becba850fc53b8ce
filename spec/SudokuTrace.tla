----------------------------- MODULE SudokuTrace ----------------------------
EXTENDS TraceBase, Sudoku
SStart(tr) == LET x == Searched(tr.puzzle, tr.hints) IN
    IF Assert(Finished(x), "search not finished")
    THEN [puzzle |-> tr.puzzle, sols |-> x.sols, unique |-> tr.unique, grid |-> tr.puzzle, can |-> [c \in Cells |-> 2 ^ N - 1]]
    ELSE <<>>
=============================================================================

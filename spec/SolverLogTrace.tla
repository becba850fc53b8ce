---------------------------- MODULE SolverLogTrace ---------------------------
EXTENDS TraceBase, SolverLog
LStart(tr) == LStart0(tr.puzzle)
=============================================================================

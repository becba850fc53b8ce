------------------------------ MODULE RestTrace ------------------------------
EXTENDS TraceBase, SolverRest
RStart(tr) == RStart0(tr)
=============================================================================

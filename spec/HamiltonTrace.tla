---------------------------- MODULE HamiltonTrace ----------------------------
EXTENDS TraceBase, Hamilton
HMStart(tr) == [g |-> GOf(tr.adj)]
=============================================================================

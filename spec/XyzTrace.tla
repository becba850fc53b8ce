------------------------------ MODULE XyzTrace ------------------------------
EXTENDS TraceBase, Xyz
XYStart(tr) == [g |-> GOf(tr.adj)]
=============================================================================

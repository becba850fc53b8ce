------------------------------ MODULE DFSTrace ------------------------------
EXTENDS TraceBase, DFS
DFStart(tr) == LET g == GOf(tr.adj) IN [g |-> g, start |-> tr.start, s |-> DFSInit(g), ev |-> <<>>]
=============================================================================

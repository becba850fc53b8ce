-------------------------- MODULE BiconnectedTrace --------------------------
EXTENDS TraceBase, Biconnected
BIStart(tr) == [g |-> GOf(tr.adj)]
=============================================================================

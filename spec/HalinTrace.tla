----------------------------- MODULE HalinTrace -----------------------------
EXTENDS TraceBase, Halin
HAStart(tr) == [g |-> GOf(tr.adj)]
=============================================================================

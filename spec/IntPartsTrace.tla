---------------------------- MODULE IntPartsTrace ---------------------------
EXTENDS TraceBase, IntParts
PStart(tr) == [n |-> tr.n]
=============================================================================

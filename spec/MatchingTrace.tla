---------------------------- MODULE MatchingTrace ----------------------------
EXTENDS TraceBase, Matching
MAStart(tr) == [g |-> GOf(tr.adj), m |-> <<>>]
=============================================================================

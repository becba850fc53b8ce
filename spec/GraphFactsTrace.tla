-------------------------- MODULE GraphFactsTrace --------------------------
EXTENDS TraceBase, GraphFacts
GFStart(tr) == [g |-> GOf(tr.adj), wt |-> IF "wt" \in DOMAIN tr THEN tr.wt ELSE <<>>]
=============================================================================

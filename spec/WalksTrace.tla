----------------------------- MODULE WalksTrace -----------------------------
EXTENDS TraceBase, Walks
WKStart(tr) == [v |-> 1..tr.n, a |-> {<<x[1], x[2], x[3]>> : x \in ToSet(tr.arcs)}]
=============================================================================

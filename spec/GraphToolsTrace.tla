--------------------------- MODULE GraphToolsTrace --------------------------
EXTENDS TraceBase, GraphTools
TStart(tr) == IF tr.t = "heap" THEN [t |-> "heap", s |-> <<RowsGraph(tr.rows)>>] ELSE [t |-> "family", s |-> tr.f]
=============================================================================

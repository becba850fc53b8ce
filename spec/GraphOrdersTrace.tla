-------------------------- MODULE GraphOrdersTrace --------------------------
EXTENDS TraceBase, GraphOrders
GOStart(tr) == [g |-> GOf(tr.adj)]
=============================================================================

----------------------------- MODULE OrdersTrace -----------------------------
EXTENDS TraceBase, Orders
ORStart(tr) == [g |-> GOf(tr.adj)]
=============================================================================

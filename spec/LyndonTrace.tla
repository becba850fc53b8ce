----------------------------- MODULE LyndonTrace ----------------------------
EXTENDS TraceBase, Lyndon
YStart(tr) == [s |-> tr.s, n |-> tr.n, w |-> tr.w]
=============================================================================

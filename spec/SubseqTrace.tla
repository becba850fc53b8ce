----------------------------- MODULE SubseqTrace ----------------------------
EXTENDS TraceBase, Subseq
SStart(tr) == [a |-> tr.a, b |-> tr.b]
=============================================================================

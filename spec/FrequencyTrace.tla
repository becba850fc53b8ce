--------------------------- MODULE FrequencyTrace ---------------------------
EXTENDS TraceBase, Frequency
FQStart(tr) == [c |-> [k \in 1..tr.n |-> 0], num |-> tr.num, den |-> tr.den]
=============================================================================

---------------------------- MODULE AutomataTrace ----------------------------
EXTENDS TraceBase, Automata
AUStart(tr) == [alpha |-> tr.alpha, full |-> tr.full, L |-> <<>>]
=============================================================================

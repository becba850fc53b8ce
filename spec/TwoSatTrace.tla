----------------------------- MODULE TwoSatTrace -----------------------------
EXTENDS TraceBase, TwoSat
TSStart(tr) == LET I == {<<p[1], p[2]>> : p \in ToSet(tr.imps)} IN
               [x |-> Vars(ToSet(tr.keys), I), i |-> I]
=============================================================================

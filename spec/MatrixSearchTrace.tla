-------------------------- MODULE MatrixSearchTrace --------------------------
EXTENDS TraceBase, MatrixSearch
MXStart(tr) == IF tr.kind = "batch" THEN [w |-> tr.w]
               ELSE LET s == [w |-> tr.w, dep |-> tr.dep, init |-> tr.init]
                    IN  [w |-> tr.w, dep |-> tr.dep, init |-> tr.init, v |-> Values(s, tr.n)]
=============================================================================

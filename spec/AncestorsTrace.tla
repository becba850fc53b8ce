--------------------------- MODULE AncestorsTrace ---------------------------
EXTENDS TraceBase, Ancestors
\* long trees are known to be trees by construction; the recorder says so with a depth order
AStart(tr) == [s |-> tr.s, par |-> tr.par,
               tree |-> Len(tr.par) > 1 /\ IF tr.ordered THEN /\ \A x \in 2..Len(tr.par) : tr.par[x] \in 1..(x - 1)
                                                              /\ tr.par[1] = 0
                                           ELSE IsTree(tr.par)]
=============================================================================

----------------------------- MODULE ChangesTrace ---------------------------
EXTENDS TraceBase, Changes
CStart(tr) == [n |-> tr.n, kind |-> tr.kind]
=============================================================================

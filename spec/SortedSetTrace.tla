--------------------------- MODULE SortedSetTrace ---------------------------
EXTENDS TraceBase, SortedSet
SSStart(tr) == [s |-> ToSet(tr.init), k |-> tr.keys]
=============================================================================

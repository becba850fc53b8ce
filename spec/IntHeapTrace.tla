---------------------------- MODULE IntHeapTrace ----------------------------
EXTENDS TraceBase, IntHeap
IHStart(tr) == {}
=============================================================================

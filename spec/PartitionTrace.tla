--------------------------- MODULE PartitionTrace ---------------------------
EXTENDS TraceBase, Partition
PRStart(tr) == [b \in {1} |-> ToSet(tr.items)]
=============================================================================

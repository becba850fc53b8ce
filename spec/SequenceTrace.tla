--------------------------- MODULE SequenceTrace ---------------------------
EXTENDS TraceBase, Sequence
SQStart(tr) == tr.init
=============================================================================

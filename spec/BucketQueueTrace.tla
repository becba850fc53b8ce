-------------------------- MODULE BucketQueueTrace --------------------------
EXTENDS TraceBase, BucketQueue
BQStart(tr) == BQEmpty
=============================================================================

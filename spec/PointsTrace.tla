----------------------------- MODULE PointsTrace ----------------------------
EXTENDS TraceBase, Points
PStart(tr) == <<>>
=============================================================================

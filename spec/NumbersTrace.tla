---------------------------- MODULE NumbersTrace ----------------------------
EXTENDS TraceBase, Numbers
NStart(tr) == <<>>
=============================================================================

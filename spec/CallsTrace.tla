------------------------------ MODULE CallsTrace -----------------------------
EXTENDS TraceBase, Calls
KStart(tr) == KBegin(tr.alone, tr.args)
=============================================================================

------------------------------ MODULE WrapTrace -----------------------------
EXTENDS TraceBase, Wrap
WStart(tr) == <<>>
=============================================================================

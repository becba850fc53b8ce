--------------------------- MODULE GraphTextTrace ---------------------------
EXTENDS TraceBase, GraphText
GTStart(tr) == Decode(tr.doc)
=============================================================================

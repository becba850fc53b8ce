----------------------------- MODULE PackingTrace ----------------------------
EXTENDS TraceBase, Packing
=============================================================================

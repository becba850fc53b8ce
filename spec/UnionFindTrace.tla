--------------------------- MODULE UnionFindTrace ---------------------------
EXTENDS TraceBase, UnionFind
UFStart(tr) == UFEmpty
=============================================================================

---------------------------- MODULE SvgDocTrace ----------------------------
EXTENDS TraceBase, SvgDoc
SVStart(tr) == [want |-> <<>>, open |-> <<>>, tol |-> tr.tol, decl |-> tr.decl,
                root |-> {A("width", tr.w), A("height", tr.h),
                          [n |-> "viewBox", t |-> "# # # #", v |-> <<0, 0, tr.w, tr.h>>]}]
=============================================================================

----------------------------- MODULE MediaTrace -----------------------------
EXTENDS TraceBase, Media
None == [s |-> {}]
MEStart(tr) ==
    CASE tr.kind = "bits" -> [kind |-> tr.kind, ok |-> TRUE, m |-> FromBits([i \in 1..Len(tr.vec) |-> ToSet(tr.vec[i])], tr.len), g |-> <<>>]
      [] tr.kind = "far" -> [kind |-> tr.kind, ok |-> TRUE, m |-> None, g |-> <<>>, vec |-> [i \in 1..Len(tr.vec) |-> ToSet(tr.vec[i])], len |-> tr.len]
      [] tr.kind = "labels" -> LET ok == LabOk(tr.rows) IN [kind |-> tr.kind, ok |-> ok, m |-> IF ok THEN FromLabels(tr.rows) ELSE None, g |-> <<>>]
      [] tr.kind = "table" -> [kind |-> tr.kind, ok |-> TRUE, g |-> <<>>,
                               m |-> [s |-> 1..Len(tr.act), t |-> 1..Len(tr.rev), act |-> tr.act, rev |-> tr.rev]]
      [] tr.kind = "graph" -> [kind |-> tr.kind, ok |-> TRUE, m |-> None, g |-> GOf(tr.adj)]
=============================================================================

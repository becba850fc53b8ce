---------------------------- MODULE BucketQueue ----------------------------
(***************************************************************************)
(* Abstract priority queue: q is a function from the items present to      *)
(* their integer priorities.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

BQEmpty == <<>>     \* function with empty domain
BQPut(q, x, p) == [y \in DOMAIN q \cup {x} |-> IF y = x THEN p ELSE q[y]]
BQDrop(q, x) == [y \in DOMAIN q \ {x} |-> q[y]]
BQMin(q) == Min({q[x] : x \in DOMAIN q})

BQClause(name, ok) == IF ok THEN {} ELSE {name}

BQFails(q, e) ==
    CASE e.op = "set" -> BQClause("setting an integer priority is accepted", e.exc = "")
      [] e.op = "setbad" -> BQClause("a non-integer priority is refused", e.exc # "")
      [] e.op = "del" -> BQClause("deleting a present item is accepted, an absent one refused",
                                  (e.exc = "") = (e.x \in DOMAIN q))
      [] e.op = "get" -> IF e.x \in DOMAIN q
                         THEN BQClause("lookup returns the current priority", e.exc = "" /\ e.p = q[e.x])
                         ELSE BQClause("lookup of an absent item is refused", e.exc # "")
      [] e.op = "has" -> BQClause("membership", e.r = (e.x \in DOMAIN q))
      [] e.op = "len" -> BQClause("length", e.r = Cardinality(DOMAIN q))
      [] e.op = "pop" ->
           IF e.stop THEN BQClause("iteration ends only when the queue is empty", DOMAIN q = {})
           ELSE BQClause("iteration yields a present item", e.x \in DOMAIN q)
                \cup (IF e.x \in DOMAIN q
                      THEN BQClause("iteration yields a minimum-priority item", q[e.x] = BQMin(q))
                           \cup BQClause("the reported priority is the item's", e.haspri => e.p = q[e.x])
                      ELSE {})
      [] e.op = "raised" -> {"a legal operation raised " \o e.exc}

BQApply(q, e) ==
    CASE e.op = "set" -> BQPut(q, e.x, e.p)
      [] e.op = "del" -> IF e.x \in DOMAIN q THEN BQDrop(q, e.x) ELSE q
      [] e.op = "pop" -> IF e.stop THEN q ELSE BQDrop(q, e.x)
      [] OTHER -> q
=============================================================================

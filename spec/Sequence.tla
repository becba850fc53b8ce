------------------------------ MODULE Sequence ------------------------------
(***************************************************************************)
(* Abstract sequence of distinct items with edits relative to an item, and *)
(* comparison of positions.  The state is the TLA+ sequence itself.  Under *)
(* a key function several objects name the same item: -x names the item x  *)
(* does, but what the sequence holds and shows is the object put in.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SQKey(x) == IF x < 0 THEN -x ELSE x
SQMem(s, x) == \E i \in 1..Len(s) : SQKey(s[i]) = SQKey(x)
SQPos(s, x) == CHOOSE i \in 1..Len(s) : SQKey(s[i]) = SQKey(x)
SQInsert(s, i, y) == SubSeq(s, 1, i) \o <<y>> \o SubSeq(s, i + 1, Len(s))   \* y becomes item i+1
SQSucc(s, x) == LET i == SQPos(s, x) IN IF i = Len(s) THEN s[1] ELSE s[i + 1]
SQPred(s, x) == LET i == SQPos(s, x) IN IF i = 1 THEN s[Len(s)] ELSE s[i - 1]

SQClause(name, ok) == IF ok THEN {} ELSE {name}

\* whether the specification accepts the edit
SQLegal(s, e) ==
    CASE e.op = "append" -> ~SQMem(s, e.y)
      [] e.op \in {"after", "before"} -> SQMem(s, e.x) /\ ~SQMem(s, e.y)
      [] e.op = "remove" -> SQMem(s, e.x)

SQFails(s, e) ==
    CASE e.op \in {"append", "after", "before", "remove"} ->
           SQClause("an edit naming present items is accepted: " \o e.op, SQLegal(s, e) => e.exc = "")
           \cup SQClause("an edit duplicating an item or naming an absent one is refused: " \o e.op,
                         ~SQLegal(s, e) => e.exc # "")
      [] e.op = "iter" -> SQClause("iteration lists the items in order", e.r = s)
      [] e.op = "shown" -> SQClause("the printed form lists the items in order", e.r = s)
      [] e.op = "len" -> SQClause("length", e.r = Len(s))
      [] e.op = "get" -> IF e.i < Len(s) THEN SQClause("indexing", e.exc = "" /\ e.r = s[e.i + 1])
                         ELSE SQClause("an index past the end is refused", e.exc # "")
      [] e.op = "succ" -> IF SQMem(s, e.x) THEN SQClause("cyclic successor", e.exc = "" /\ e.r = SQSucc(s, e.x))
                          ELSE SQClause("successor of an absent item is refused", e.exc # "")
      [] e.op = "pred" -> IF SQMem(s, e.x) THEN SQClause("cyclic predecessor", e.exc = "" /\ e.r = SQPred(s, e.x))
                          ELSE SQClause("predecessor of an absent item is refused", e.exc # "")
      [] e.op = "cmp" -> SQClause("comparison follows current positions",
                                  /\ e.exc = ""
                                  /\ LET i == SQPos(s, e.x) j == SQPos(s, e.y) IN
                                       e.r = (IF i < j THEN -1 ELSE IF i > j THEN 1 ELSE 0))
      [] e.op = "raised" -> {"a legal operation raised " \o e.exc}

SQApply(s, e) ==
    IF e.op \in {"append", "after", "before", "remove"} /\ e.exc = ""
    THEN CASE e.op = "append" -> Append(s, e.y)
           [] e.op = "after" -> SQInsert(s, SQPos(s, e.x), e.y)
           [] e.op = "before" -> SQInsert(s, SQPos(s, e.x) - 1, e.y)
           [] e.op = "remove" -> LET i == SQPos(s, e.x) IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
    ELSE s
=============================================================================

------------------------------ MODULE Partition ------------------------------
(***************************************************************************)
(* Partition refinement.  State: a function from block names (tokens that  *)
(* stand for the set objects handed out) to sets of elements.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

PRClause(name, ok) == IF ok THEN {} ELSE {name}
PRElems(st) == UNION {st[b] : b \in DOMAIN st}
PRFull(st) == {b \in DOMAIN st : st[b] # {}}
PRBlock(st, x) == CHOOSE b \in DOMAIN st : x \in st[b]
PRSplit(st, S) == {b \in DOMAIN st : st[b] \cap S # {} /\ st[b] \ S # {}}

\* the refinement itself, naming the inner part of block b as new[b]
PRRefine(st, S, new) ==
    LET sp == PRSplit(st, S) IN
    [b \in DOMAIN st \cup {new[a] : a \in sp} |->
        IF b \in sp THEN st[b] \ S
        ELSE IF b \in DOMAIN st THEN st[b]
        ELSE LET a == CHOOSE a \in sp : new[a] = b IN st[a] \cap S]

PRFails(st, e) ==
    CASE e.op = "refine" ->
           LET S == ToSet(e.s)
               outs == {e.r[i].tout : i \in 1..Len(e.r)}
               ins == {e.r[i].tin : i \in 1..Len(e.r)}
           IN  PRClause("each split block is reported once, as the block it was", 
                        outs = PRSplit(st, S) /\ Len(e.r) = Cardinality(outs))
               \cup PRClause("inner parts are new blocks",
                        ins \cap DOMAIN st = {} /\ Cardinality(ins) = Len(e.r))
               \cup PRClause("reported pairs are (inside, outside)",
                        \A i \in 1..Len(e.r) : e.r[i].tout \in DOMAIN st =>
                            /\ ToSet(e.r[i].in) = st[e.r[i].tout] \cap S
                            /\ ToSet(e.r[i].out) = st[e.r[i].tout] \ S)
      [] e.op = "add" ->
           IF e.tok \in DOMAIN st /\ e.x \notin PRElems(st)
           THEN PRClause("adding a new element to a block is accepted", e.exc = "")
           ELSE PRClause("adding a present element, or to a foreign set, is refused", e.exc # "")
      [] e.op = "remove" ->
           IF e.x \in PRElems(st) THEN PRClause("removing a present element is accepted", e.exc = "")
           ELSE PRClause("removing an absent element is refused", e.exc # "")
      [] e.op = "iter" ->
           PRClause("iteration lists exactly the blocks",
               /\ \A i \in 1..Len(e.r) : e.r[i].tok \in DOMAIN st /\ ToSet(e.r[i].els) = st[e.r[i].tok]
               /\ PRFull(st) \subseteq {e.r[i].tok : i \in 1..Len(e.r)}
               /\ Cardinality({e.r[i].tok : i \in 1..Len(e.r)}) = Len(e.r))
      [] e.op = "len" ->
           PRClause("length is the number of blocks",
               e.r \in Cardinality(PRFull(st))..Cardinality(DOMAIN st))
      [] e.op = "get" ->
           IF e.x \in PRElems(st)
           THEN PRClause("lookup returns the element's block",
                   e.exc = "" /\ e.tok = PRBlock(st, e.x) /\ ToSet(e.els) = st[e.tok])
           ELSE PRClause("looking up an absent element is refused", e.exc # "")
      [] e.op = "freeze" ->   \* contents stay; blocks get new names e.m = <<[old, new]...>>, judged by contents
           PRClause("freezing changes no block's contents",
               /\ {ToSet(e.r[i].els) : i \in 1..Len(e.r)} \ {{}} = {st[b] : b \in PRFull(st)}
               /\ Cardinality({i \in 1..Len(e.r) : e.r[i].els # <<>>}) = Cardinality(PRFull(st)))
      [] e.op = "raised" -> {"a legal operation raised " \o e.exc}

PRApply(st, e) ==
    CASE e.op = "refine" ->
           LET S == ToSet(e.s) IN
           PRRefine(st, S, [b \in PRSplit(st, S) |->
               e.r[CHOOSE i \in 1..Len(e.r) : e.r[i].tout = b].tin])
      [] e.op = "add" /\ e.exc = "" -> [st EXCEPT ![e.tok] = @ \cup {e.x}]
      [] e.op = "remove" /\ e.exc = "" -> [st EXCEPT ![PRBlock(st, e.x)] = @ \ {e.x}]
      [] e.op = "freeze" -> [b \in {e.r[i].tok : i \in 1..Len(e.r)} |->
               ToSet(e.r[CHOOSE i \in 1..Len(e.r) : e.r[i].tok = b].els)]
      [] OTHER -> st
=============================================================================

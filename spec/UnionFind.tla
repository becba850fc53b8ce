------------------------------ MODULE UnionFind ------------------------------
(***************************************************************************)
(* Abstract union-find: a partition of the items seen so far, and for each *)
(* set the name it was last observed to have (absent: not yet observed).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

UFEmpty == [part |-> {}, named |-> {}]

UFSeen(s) == UNION s.part
UFBlock(s, x) == IF x \in UFSeen(s) THEN CHOOSE b \in s.part : x \in b ELSE {x}

\* x becomes known as a singleton if it was unknown
UFTouch(s, x) == IF x \in UFSeen(s) THEN s ELSE [s EXCEPT !.part = @ \cup {{x}}]

UFMerge(s, X) ==
    LET bs == {UFBlock(s, x) : x \in X}
        m  == UNION bs
    IN  IF Cardinality(bs) <= 1
        THEN [s EXCEPT !.part = @ \cup bs]
        ELSE [part |-> (s.part \ bs) \cup {m},
              named |-> {p \in s.named : p[1] \notin bs}]

UFClause(name, ok) == IF ok THEN {} ELSE {name}

UFFails(s, e) ==
    CASE e.op = "find" ->
           LET b == UFBlock(s, e.x) IN
             UFClause("the name of a set is one of its members", e.r \in b)
             \cup UFClause("an unchanged set keeps its name", \A p \in s.named : p[1] = b => p[2] = e.r)
      [] e.op = "union" -> {}
      [] e.op = "iter" ->
             UFClause("iteration lists exactly the items seen", ToSet(e.r) = UFSeen(s))
             \cup UFClause("iteration lists no item twice", IsInjective(e.r))
      [] e.op = "raised" -> {"a legal operation raised " \o e.exc}

UFApply(s, e) ==
    CASE e.op = "find" -> LET s1 == UFTouch(s, e.x) IN [s1 EXCEPT !.named = @ \cup {<<UFBlock(s1, e.x), e.r>>}]
      [] e.op = "union" -> UFMerge(s, ToSet(e.xs))
      [] OTHER -> s
=============================================================================

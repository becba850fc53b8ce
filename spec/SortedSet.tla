----------------------------- MODULE SortedSet -----------------------------
(***************************************************************************)
(* Abstract sorted set: members s and current sort keys k.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SSClause(name, ok) == IF ok THEN {} ELSE {name}

SSSorted(k, r) == \A i \in 1..(Len(r) - 1) : k[r[i]] <= k[r[i + 1]]

SSFails(st, e) ==
    CASE e.op = "add" -> SSClause("adding is accepted", e.exc = "")
      [] e.op = "remove" -> SSClause("removing a member is accepted, an absent item refused",
                                     (e.exc = "") = (e.x \in st.s))
      [] e.op = "rekey" -> SSClause("updating a member is accepted", e.exc = "")
      [] e.op = "len" -> SSClause("length", e.r = Cardinality(st.s))
      [] e.op = "has" -> SSClause("membership", e.r = (e.x \in st.s))
      [] e.op = "iter" -> SSClause("iteration lists exactly the members", ToSet(e.r) = st.s)
                          \cup SSClause("iteration lists no member twice", IsInjective(e.r))
                          \cup (IF ToSet(e.r) \subseteq DOMAIN st.k
                                THEN SSClause("iteration is in sorted order", SSSorted(st.k, e.r))
                                ELSE {})
      [] e.op = "raised" -> {"a legal operation raised " \o e.exc}

SSApply(st, e) ==
    CASE e.op = "add" -> [st EXCEPT !.s = @ \cup {e.x}]
      [] e.op = "remove" -> [st EXCEPT !.s = @ \ {e.x}]
      [] e.op = "rekey" -> [st EXCEPT !.k[e.x] = e.k]
      [] OTHER -> st
=============================================================================

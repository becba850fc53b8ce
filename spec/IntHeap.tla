------------------------------ MODULE IntHeap ------------------------------
(***************************************************************************)
(* An integer heap is a set of integers with a minimum.  Values are logged *)
(* by rank, so 64-bit keys fit TLC's integers; only order matters.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

IHClause(name, ok) == IF ok THEN {} ELSE {name}

IHFails(s, e) ==
    CASE e.op = "add" -> IHClause("adding an in-range integer is accepted", e.exc = "")
      [] e.op = "addbad" -> IHClause("an out-of-range integer is refused", e.exc # "")
      [] e.op = "remove" -> IHClause("removing a present integer is accepted", e.x \in s => e.exc = "")
      [] e.op = "min" -> IF s = {} THEN IHClause("minimum of an empty heap is refused", e.exc # "")
                         ELSE IHClause("minimum is the smallest integer present", e.exc = "" /\ e.r = Min(s))
      [] e.op = "bool" -> IHClause("truth value is nonemptiness", e.r = (s # {}))
      [] e.op = "log" -> IHClause("logarithm of a power of two", e.exc = "" /\ e.r = e.x)
      [] e.op = "raised" -> {"a legal operation raised " \o e.exc}

IHApply(s, e) ==
    CASE e.op = "add" -> s \cup {e.x}
      [] e.op = "remove" -> s \ {e.x}
      [] OTHER -> s
=============================================================================

------------------------------ MODULE Frequency ------------------------------
(***************************************************************************)
(* Stream frequency estimation.  State: true counts of each key and the    *)
(* accuracy as a rational num/den.  Estimates are logged in thousandths of *)
(* an occurrence (estimate * stream length * 1000).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

FQClause(name, ok) == IF ok THEN {} ELSE {name}
FQTotal(st) == LET f[i \in 0..Len(st.c)] == IF i = 0 THEN 0 ELSE f[i - 1] + st.c[i] IN f[Len(st.c)]

\* the accuracy contract for an estimate r (thousandths) of a key seen c times in a stream of length n
FQWithin(num, den, n, c, r, tol) == /\ r >= -tol
                                    /\ r <= 1000 * c + tol
                                    /\ (1000 * c - r) * den <= 1000 * num * n + tol * den

FQFails(st, e) ==
    CASE e.op = "add" -> {}
      [] e.op = "obs" ->
           LET n == FQTotal(st) IN
           FQClause("estimate never exceeds the truth and is within the accuracy",
               \A k \in 1..Len(st.c) : FQWithin(st.num, st.den, n, st.c[k], e.est[k], 1))
           \cup FQClause("an unseen key has estimate zero",
               \A k \in 1..Len(st.c) : st.c[k] = 0 => e.est[k] = 0)
           \cup FQClause("iteration lists only keys that occurred, once each",
               /\ \A i \in 1..Len(e.keys) : e.keys[i] \in 1..Len(st.c) /\ st.c[e.keys[i]] > 0
               /\ Cardinality(ToSet(e.keys)) = Len(e.keys))
           \cup FQClause("iteration includes every key more frequent than the accuracy",
               \A k \in 1..Len(st.c) : st.c[k] * st.den > st.num * n => k \in ToSet(e.keys))
           \cup FQClause("no more than 1/accuracy keys are kept", Len(e.keys) * st.num <= st.den)
      [] e.op = "raised" -> {"counting or estimating raised " \o e.exc}

FQApply(st, e) == IF e.op = "add" THEN [st EXCEPT !.c[e.k] = @ + 1] ELSE st
=============================================================================

------------------------------- MODULE TwoSat -------------------------------
(***************************************************************************)
(* Two-satisfiability.  Variables are 1..n, the literal -x is the negation *)
(* of x.  An instance is a set of implications <<a, b>> between literals.  *)
(* Answers are judged by literal reachability in the contraposition-closed *)
(* implication graph; TwoSatMeaning shows that this agrees with searching  *)
(* all assignments.                                                        *)
(***************************************************************************)
EXTENDS Graphs, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
Lits(X) == X \cup {-x : x \in X}
Vars(keys, imps) == {Abs(a) : a \in keys} \cup UNION {{Abs(i[1]), Abs(i[2])} : i \in imps}
Contra(imps) == imps \cup {<<-i[2], -i[1]>> : i \in imps}
ImpGraph(X, imps) == LET c == TLCEval(Contra(imps)) IN TLCEval([a \in Lits(X) |-> {i[2] : i \in {j \in c : j[1] = a}}])
\* literals that imply their own negation
Refuted(X, imps) == LET g == ImpGraph(X, imps) IN {a \in Lits(X) : -a \in Reach(g, a)}
Sat(X, imps) == LET r == TLCEval(Refuted(X, imps)) IN \A x \in X : ~(x \in r /\ -x \in r)
ForcedTrue(X, imps) == {-a : a \in Refuted(X, imps)}

\* by search
Holds(f, a) == IF a > 0 THEN f[a] ELSE ~f[-a]
Models(X, imps) == {f \in [X -> BOOLEAN] : \A i \in imps : Holds(f, i[1]) => Holds(f, i[2])}

TSFails(st, e) ==
    LET X == st.x  I == st.i IN
    CASE e.op = "sat" -> GClause("satisfiable exactly when some assignment works", e.r <=> Sat(X, I))
      [] e.op = "forced" ->
            GClause("nothing returned exactly when unsatisfiable", e.none <=> ~Sat(X, I)) \cup
            (IF e.none \/ ~Sat(X, I) THEN {}
             ELSE GClause("forced variables exact",
                    /\ IsInjective(e.r)
                    /\ {IF p[2] THEN p[1] ELSE -p[1] : p \in ToSet(e.r)} = ForcedTrue(X, I)))
      [] e.op = "sym" ->     \* rows <<literal, implied literals>>
            GClause("completion adds exactly the contrapositives",
                /\ {r[1] : r \in ToSet(e.r)} = Lits(X) /\ Len(e.r) = Cardinality(Lits(X))
                /\ UNION {{<<r[1], b>> : b \in ToSet(r[2])} : r \in ToSet(e.r)} = Contra(I)
                /\ \A r \in ToSet(e.r) : IsInjective(r[2]))
      [] e.op = "negs" ->    \* cls[i]: equality class of value i; other fields as observed
            LET n == Len(e.cls) IN
            GClause("double negation gives the value back", \A i \in 1..n : e.twice[i]) \cup
            GClause("negations equal exactly when values are",
                    \A i, j \in 1..n : e.eq[i][j] <=> e.cls[i] = e.cls[j]) \cup
            GClause("inequality is the opposite of equality", \A i, j \in 1..n : e.ne[i][j] <=> ~e.eq[i][j]) \cup
            GClause("a negation of a negation is not constructed", \A i \in 1..n : e.nested[i]) \cup
            GClause("equal negations hash alike", \A i, j \in 1..n : e.eq[i][j] => e.hash[i][j]) \cup
            GClause("a negation is recognisable and differs from every value",
                    \A i, j \in 1..n : e.is[i] /\ ~e.plain[i][j])
      [] e.op = "same" -> GClause("the argument is left unchanged", e.r)
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
TSApply(st, e) == st
=============================================================================

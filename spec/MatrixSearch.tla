---------------------------- MODULE MatrixSearch ----------------------------
(***************************************************************************)
(* Column minima of totally monotone matrices.  A matrix is a sequence of  *)
(* rows.  The online variant has positions 0,1,2,...; w[i+1][j] is the     *)
(* cost of entry (i,j), i < j, to which the value already found at i is    *)
(* added when dep is true.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

MXClause(name, ok) == IF ok THEN {} ELSE {name}

Monotone(m) ==
    \A i, k \in 1..Len(m) : \A j, c \in 1..Len(m[1]) :
        (i < k /\ j < c /\ m[i][j] > m[k][j]) => m[i][c] > m[k][c]

ColMin(m, j) == Min({m[i][j] : i \in 1..Len(m)})
ColArg(m, j) == CHOOSE i \in 1..Len(m) : m[i][j] = ColMin(m, j) /\ \A k \in 1..(i - 1) : m[k][j] # ColMin(m, j)

\* entry (i,j) once the values at positions 0..i are known (v[i+1])
Entry(st, v, i, j) == st.w[i + 1][j] + (IF st.dep THEN v[i + 1] ELSE 0)
NextValue(st, v) == LET j == Len(v) IN Append(v, Min({Entry(st, v, i, j) : i \in 0..(j - 1)}))
Values(st, n) == FoldLeft(LAMBDA v, k : NextValue(st, v), <<st.init>>, [k \in 1..n |-> k])

MXFails(st, e) ==
    CASE e.op = "batch" ->
           LET m == st.w IN
           MXClause("every column is answered once",
               /\ Len(e.r) = Len(m[1]) /\ {e.r[k].col : k \in 1..Len(e.r)} = 1..Len(m[1]))
           \cup MXClause("column minimum", \A k \in 1..Len(e.r) :
                    e.r[k].col \in 1..Len(m[1]) => e.r[k].val = ColMin(m, e.r[k].col))
           \cup MXClause("earliest row attaining it", \A k \in 1..Len(e.r) :
                    e.r[k].col \in 1..Len(m[1]) => e.r[k].row = ColArg(m, e.r[k].col))
      [] e.op = "none" -> MXClause("no columns, no answers", e.n = 0)
      [] e.op = "value" -> MXClause("minimum over all earlier positions", e.r = st.v[e.j + 1])
      [] e.op = "index" ->
           IF e.j = 0 THEN {} ELSE
           MXClause("a position attaining the minimum",
               e.r \in 0..(e.j - 1) /\ Entry(st, st.v, e.r, e.j) = st.v[e.j + 1])
      [] e.op = "premature" -> {"a cost was requested before the value it may depend on was known"}
      [] e.op = "raised" -> {"the search raised " \o e.exc}
MXApply(st, e) == st
=============================================================================

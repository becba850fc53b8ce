------------------------------ MODULE Ancestors ------------------------------
(***************************************************************************)
(* Minima of ranges and deepest common ancestors.  A tree is a sequence of *)
(* parents with 0 for the root; a sequence of values is given by ranks.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

LClause(name, ok) == IF ok THEN {} ELSE {name}
\* positions i+1..j of s, for bounds counted between the elements
MinIn(s, i, j) == Min({s[k] : k \in (i + 1)..j})
\* bounds of a slice as Python reads them; <<>> when left out
Bound(b, n, absent) == IF b = <<>> THEN absent ELSE LET x == IF b[1] < 0 THEN b[1] + n ELSE b[1] IN
                       IF x < 0 THEN 0 ELSE IF x > n THEN n ELSE x

\* x, parent of x, ... up to the root; stops after as many steps as there are nodes
Up(par, x) == FoldLeft(LAMBDA c, k : IF c[Len(c)] = 0 THEN c ELSE Append(c, par[c[Len(c)]]), <<x>>, [k \in 1..Len(par) |-> k])
Chain(par, x) == SelectSeq(Up(par, x), LAMBDA y : y # 0)
IsTree(par) == /\ Cardinality({x \in 1..Len(par) : par[x] = 0}) = 1
               /\ \A x \in 1..Len(par) : 0 \in ToSet(Up(par, x))
Common(par, xs) == LET first == Chain(par, Head(xs))
                       rest == {ToSet(Chain(par, xs[k])) : k \in 2..Len(xs)}
                       ok == {k \in 1..Len(first) : \A r \in rest : first[k] \in r} IN
                   first[Min(ok)]

AFails(st, e) ==
    CASE e.op = "min" ->
            LET n == Len(st.s)
                i == Bound(e.i, n, 0)
                j == Bound(e.j, n, n) IN
            LClause("minimum of the range", i < j /\ e.r = MinIn(st.s, i, j))
      [] e.op = "prefix" -> LClause("prefix minima", e.r = [k \in 1..Len(st.s) |-> MinIn(st.s, 0, k)])
      [] e.op = "suffix" -> LClause("suffix minima", e.r = [k \in 1..Len(st.s) |-> MinIn(st.s, k - 1, Len(st.s))])
      [] e.op = "len" -> LClause("length", e.r = Len(st.s))
      [] e.op = "odd" -> LClause("only plain ranges are answered", e.exc # "")
      [] e.op = "built" -> LClause("what is not a tree is refused", st.tree)
      [] e.op = "notree" -> LClause("every tree is accepted", ~st.tree)
      [] e.op = "lca" -> LClause("deepest common ancestor", e.r = Common(st.par, e.q))
      [] e.op = "raised" -> {"unexpected " \o e.exc}
      [] OTHER -> {"unknown event"}
AApply(st, e) == st
=============================================================================

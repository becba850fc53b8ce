------------------------------ MODULE Hamilton ------------------------------
(***************************************************************************)
(* Hamiltonian cycles of graphs of maximum degree three.  The set of all   *)
(* cycles is defined by extending simple paths one vertex at a time; an    *)
(* enumeration is right when it lists every cycle exactly once.            *)
(***************************************************************************)
EXTENDS Graphs

RECURSIVE HGrow(_, _, _)
HGrow(g, P, k) == IF k = Cardinality(V(g)) THEN P
    ELSE HGrow(g, UNION {{Append(p, w) : w \in g[p[Len(p)]] \ ToSet(p)} : p \in P}, k + 1)
PathEdges(p) == {{p[i], p[i + 1]} : i \in 1..(Len(p) - 1)}
\* as sets of edges, so each cycle counts once whatever its start and direction
HamCycles(g) == IF Cardinality(V(g)) < 3 THEN {}
    ELSE LET s == CHOOSE v \in V(g) : TRUE IN
         {PathEdges(p) \cup {{p[Len(p)], s}} : p \in {q \in HGrow(g, {<<s>>}, 1) : s \in g[q[Len(q)]]}}

Subcubic(g) == V(g) # {} /\ Undirected(g) /\ \A v \in V(g) : Deg(g, v) <= 3

\* rows <<v, neighbours>> describe an undirected graph on all the vertices
RowsOk(g, rows) == /\ Len(rows) = Cardinality(V(g)) /\ {r[1] : r \in ToSet(rows)} = V(g)
                   /\ \A r \in ToSet(rows) : IsInjective(r[2]) /\ ToSet(r[2]) \subseteq V(g)
                   /\ \A r, s \in ToSet(rows) : s[1] \in ToSet(r[2]) <=> r[1] \in ToSet(s[2])
RowEdges(rows) == UNION {{{r[1], w} : w \in ToSet(r[2])} : r \in ToSet(rows)}

HMFails(st, e) ==
    CASE e.op = "cycles" ->
            GClause("a graph outside the domain is refused", Subcubic(st.g)) \cup
            (IF ~Subcubic(st.g) THEN {} ELSE
             IF \E i \in 1..Len(e.r) : ~RowsOk(st.g, e.r[i]) THEN {"every result is a graph on the same vertices"}
             ELSE LET all == HamCycles(st.g)
                      got == [i \in 1..Len(e.r) |-> RowEdges(e.r[i])] IN
                  GClause("every result is a Hamiltonian cycle", ToSet(got) \subseteq all) \cup
                  GClause("every Hamiltonian cycle is found", all \subseteq ToSet(got)) \cup
                  GClause("no cycle is repeated", IsInjective(got)))
      [] e.op = "refused" -> GClause("a graph inside the domain is accepted", ~Subcubic(st.g))
      [] e.op = "same" -> GClause("the argument is left unchanged", e.r)
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
HMApply(st, e) == st
=============================================================================

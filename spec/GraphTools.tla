------------------------------ MODULE GraphTools -----------------------------
(***************************************************************************)
(* A heap of graphs, the helper operations that read or build graphs, and  *)
(* the example families.  A graph is [v, a]: vertices and arcs.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

HClause(name, ok) == IF ok THEN {} ELSE {name}
Outs(g, x) == {w \in g.v : <<x, w>> \in g.a}
Within(g, V) == [v |-> g.v \cap V, a |-> {p \in g.a : p[1] \in V /\ p[2] \in V}]
Joined(gs) == [v |-> UNION {g.v : g \in gs}, a |-> UNION {g.a : g \in gs}]
Simple(g) == \A p \in g.a : p[1] # p[2] /\ <<p[2], p[1]>> \in g.a
Degrees(g) == {Cardinality(Outs(g, x)) : x \in g.v}
Free(g, V) == Within(g, V).a = {}

\* the new graph an operation makes
Made(heap, e) == CASE e.op = "copy" -> heap[e.i]
                   [] e.op = "induced" -> Within(heap[e.i], ToSet(e.set))
                   [] e.op = "union" -> Joined({heap[i] : i \in ToSet(e.is)})
HApply(heap, e) ==
    CASE e.op \in {"copy", "induced", "union"} -> Append(heap, Made(heap, e))
      [] e.op = "poke" -> [heap EXCEPT ![e.i].a = IF e.add THEN @ \cup {<<e.x, e.y>>} ELSE @ \ {<<e.x, e.y>>}]
      [] OTHER -> heap

RowsGraph(rows) == [v |-> {r[1] : r \in ToSet(rows)}, a |-> UNION {{<<r[1], w>> : w \in ToSet(r[2])} : r \in ToSet(rows)}]
\* no vertex and no neighbour listed twice
NoRepeat(rows) == /\ Cardinality({r[1] : r \in ToSet(rows)}) = Len(rows)
                  /\ \A r \in ToSet(rows) : Cardinality(ToSet(r[2])) = Len(r[2])
HFails(heap, e) ==
    LET after == HApply(heap, e) IN
    HClause("other graphs unchanged",
            /\ Len(e.heap) = Len(after)
            /\ \A i \in 1..Len(heap) : RowsGraph(e.heap[i]) = after[i]) \cup
    CASE e.op \in {"copy", "induced", "union"} ->
            HClause("new graph", Len(e.heap) = Len(after) /\ RowsGraph(e.heap[Len(after)]) = after[Len(after)] /\ NoRepeat(e.heap[Len(after)])) \cup
            HClause("adjacency lists of the requested type", e.kind)
      [] e.op = "poke" -> {}
      [] e.op = "simple" -> HClause("undirected test", e.r = Simple(heap[e.i]))
      [] e.op = "maxdeg" -> HClause("maximum degree", e.r = Max(Degrees(heap[e.i])))
      [] e.op = "mindeg" -> HClause("minimum degree", e.r = Min(Degrees(heap[e.i])))
      [] e.op = "free" -> HClause("independent set test", e.r = Free(heap[e.i], ToSet(e.set)))
      [] e.op = "raised" -> {"unexpected " \o e.exc}
      [] OTHER -> {"unknown event"}

(***************************************************************************)
(* Families; vertices are numbered from 1.                                 *)
(***************************************************************************)
Sym(E) == E \cup {<<p[2], p[1]>> : p \in E}
Graph(n, E) == [v |-> 1..n, a |-> Sym(E)]
\* outer vertex i is 2i+2, inner vertex i is 2i+1
PetersenOf(n, k) == Graph(2 * n, UNION {{<<2 * i + 2, 2 * i + 1>>, <<2 * i + 2, 2 * ((i + 1) % n) + 2>>,
                                         <<2 * i + 1, 2 * ((i + k) % n) + 1>>} : i \in 0..(n - 1)})
\* hub i is 4i+1, joined to one vertex of each of three rings with steps 1, a, b
CoxeterOf(n, a, b) ==
    LET at(i, j) == 4 * (i % n) + j + 1 IN
    Graph(4 * n, UNION {{<<at(i, 0), at(i, 1)>>, <<at(i, 0), at(i, 2)>>, <<at(i, 0), at(i, 3)>>,
                         <<at(i, 1), at(i + 1, 1)>>, <<at(i, 2), at(i + a, 2)>>, <<at(i, 3), at(i + b, 3)>>} : i \in 0..(n - 1)})
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Flip(x, y) == IF (x \div P2(y)) % 2 = 0 THEN x + P2(y) ELSE x - P2(y)
\* corner x, position y is x*n + y + 1
CyclesOf(n) == Graph(n * P2(n), UNION {{<<c[1] * n + c[2] + 1, c[1] * n + ((c[2] + 1) % n) + 1>>,
                                        <<c[1] * n + c[2] + 1, Flip(c[1], c[2]) * n + c[2] + 1>>} : c \in (0..(P2(n) - 1)) \X (0..(n - 1))})
\* a ring with a chord of the listed length at every vertex; every chord has to come back
LcfOf(L, n) == LET m == n * Len(L) IN
    Graph(m, UNION {{<<i + 1, ((i + 1) % m) + 1>>, <<i + 1, ((i + L[(i % Len(L)) + 1]) % m) + 1>>} : i \in 0..(m - 1)})
LcfFair(L, n) == LET m == n * Len(L)
                     ch(i) == L[(i % Len(L)) + 1] IN
    /\ m >= 4
    /\ \A i \in 0..(m - 1) : ch(i) % m \notin {0, 1, m - 1} /\ (i + ch(i) + ch((i + ch(i)) % m)) % m = i
Family(f) == CASE f.kind = "petersen" -> PetersenOf(f.n, f.k)
               [] f.kind = "coxeter" -> CoxeterOf(f.n, f.a, f.b)
               [] f.kind = "cycles" -> CyclesOf(f.n)
               [] f.kind = "lcf" -> LcfOf(f.l, f.n)
Fair(f) == CASE f.kind = "petersen" -> f.n >= 3 /\ f.k >= 1 /\ 2 * f.k < f.n
             [] f.kind = "coxeter" -> f.n >= 3 /\ f.a >= 1 /\ 2 * f.a < f.n /\ f.b >= 1 /\ 2 * f.b < f.n
             [] f.kind = "cycles" -> f.n >= 3
             [] f.kind = "lcf" -> LcfFair(f.l, f.n)
Cubic(g) == Simple(g) /\ Degrees(g) = {3}

\* distances
Layer(g, front, seen) == UNION {Outs(g, x) : x \in front} \ seen
RECURSIVE Ecc(_, _, _, _)
Ecc(g, front, seen, d) == LET n == Layer(g, front, seen) IN IF n = {} THEN [d |-> d, all |-> seen = g.v] ELSE Ecc(g, n, seen \cup n, d + 1)
Diameter(g) == LET es == {Ecc(g, {x}, {x}, 0) : x \in g.v} IN IF \A e \in es : e.all THEN Max({e.d : e \in es}) ELSE -1
RECURSIVE Dist(_, _, _, _, _)
Dist(g, front, seen, y, d) == IF y \in front THEN d ELSE IF front = {} THEN 9999
    ELSE LET n == Layer(g, front, seen) IN Dist(g, n, seen \cup n, y, d + 1)
Girth(g) == Min({1 + Dist([g EXCEPT !.a = @ \ {p, <<p[2], p[1]>>}], {p[1]}, {p[1]}, p[2], 0) : p \in {q \in g.a : q[1] < q[2]}})
RECURSIVE Sides(_, _, _)
Sides(g, A, B) == LET na == UNION {Outs(g, x) : x \in B}  nb == UNION {Outs(g, x) : x \in A} IN
    IF na \subseteq A /\ nb \subseteq B THEN A \cap B = {} ELSE Sides(g, A \cup na, B \cup nb)
Even(g) == Sides(g, {Min(g.v)}, {})
\* order, girth, diameter, bipartite
Named == [petersen |-> <<10, 5, 2, FALSE>>, desargues |-> <<20, 6, 5, TRUE>>, coxeter |-> <<28, 7, 4, FALSE>>,
          mcgee |-> <<24, 7, 4, FALSE>>, dyck |-> <<32, 6, 5, TRUE>>, pappus |-> <<18, 6, 4, TRUE>>,
          tutte |-> <<30, 8, 4, TRUE>>, gray |-> <<54, 8, 6, TRUE>>]
Signature(g) == <<Cardinality(g.v), Girth(g), Diameter(g), Even(g)>>

FFails(f, e) ==
    CASE e.op = "rows" ->
            LET g == RowsGraph(e.r) IN
            IF f.kind = "named" THEN HClause("simple cubic graph", Cubic(g) /\ NoRepeat(e.r)) \cup
                                     HClause("order, girth, diameter and sides", ~Cubic(g) \/ Signature(g) = Named[f.name])
            ELSE IF ~Fair(f) THEN {"HINT parameters"}
            ELSE HClause("vertices", g.v = Family(f).v) \cup HClause("edges", g = Family(f) /\ NoRepeat(e.r))
      [] e.op = "raised" -> {"unexpected " \o e.exc}
      [] OTHER -> {"unknown event"}

TFails(st, e) == IF st.t = "heap" THEN HFails(st.s, e) ELSE FFails(st.s, e)
TApply(st, e) == IF st.t = "heap" THEN [st EXCEPT !.s = HApply(@, e)] ELSE st
=============================================================================

-------------------------------- MODULE Xyz --------------------------------
(***************************************************************************)
(* Cubic graphs split into three perfect matchings, and sets of points in  *)
(* space met by every axis-parallel line in zero or two points.            *)
(***************************************************************************)
EXTENDS Graphs

RECURSIVE PMs(_, _)      \* perfect matchings of the vertices left
PMs(g, S) == IF S = {} THEN {{}}
             ELSE LET v == CHOOSE v \in S : TRUE IN
                  UNION {{{{v, w}} \cup m : m \in PMs(g, S \ {v, w})} : w \in g[v] \cap S}
Partitions(g) ==         \* sets of three matchings
    LET P == PMs(g, V(g))  E == Edges(g) IN
    IF E = {} THEN {}
    ELSE LET e == CHOOSE e \in E : TRUE
             f == CHOOSE f \in E : f # e /\ f \cap e # {}
             A == {m \in P : e \in m}
             B == {m \in P : f \in m} IN
         {{p[1], p[2], E \ (p[1] \cup p[2])} :
             p \in {q \in A \X B : q[1] \cap q[2] = {} /\ (E \ (q[1] \cup q[2])) \in P}}
Cubic(g) == V(g) # {} /\ Undirected(g) /\ \A v \in V(g) : Deg(g, v) = 3
NoCutVertex(g) == Connected(g) /\ \A v \in V(g) : Connected(Induced(g, V(g) \ {v}))
Fit(g) == Cubic(g) /\ NoCutVertex(g)

\* components of two of the matchings
Planes(g, E) == Components([v \in V(g) |-> {w \in g[v] : {v, w} \in E}])
PlaneOf(P, v) == CHOOSE c \in P : v \in c
\* position of a vertex: its component for each pair of matchings
XyzPartition(g, part) ==
    LET C == [m \in part |-> Planes(g, Edges(g) \ m)] IN     \* one coordinate per matching left out
    \* two vertices on a common line exactly when adjacent
    \A v \in V(g) : \A m \in part : \A k \in part \ {m} :
        Cardinality(PlaneOf(C[m], v) \cap PlaneOf(C[k], v)) = 2
XyzOnes(g) == {p \in Partitions(g) : XyzPartition(g, p)}

\* a set of points (triples)
LineMates(P, p, i) == {q \in P : \A j \in 1..3 : j # i => q[j] = p[j]}
IsXyz(P) == \A p \in P, i \in 1..3 : Cardinality(LineMates(P, p, i)) = 2

\* rows <<v, <<a, b, c>>>>: neighbours in the three matchings
PartRowsOk(g, rows) == /\ Len(rows) = Cardinality(V(g)) /\ {r[1] : r \in ToSet(rows)} = V(g)
                       /\ \A r \in ToSet(rows) : Len(r[2]) = 3 /\ ToSet(r[2]) = g[r[1]]
PartOf(rows) == {{{r[1], r[2][i]} : r \in ToSet(rows)} : i \in 1..3}
\* rows <<v, <<x, y, z>>>>
PosOf(rows) == [v \in {r[1] : r \in ToSet(rows)} |-> (CHOOSE r \in ToSet(rows) : r[1] = v)[2]]
Differs(p, q) == {i \in 1..3 : p[i] # q[i]}
EmbOk(g, rows) == /\ Len(rows) = Cardinality(V(g)) /\ {r[1] : r \in ToSet(rows)} = V(g)
                  /\ \A r \in ToSet(rows) : Len(r[2]) = 3
                  /\ LET pos == PosOf(rows) IN
                     \A v \in V(g), w \in V(g) : v # w =>
                         /\ pos[v] # pos[w]
                         /\ Cardinality(Differs(pos[v], pos[w])) = 1 <=> w \in g[v]
                  /\ IsXyz({r[2] : r \in ToSet(rows)})
EmbPart(g, rows) == LET pos == PosOf(rows) IN
    {{e \in Edges(g) : \E v, w \in e : v # w /\ Differs(pos[v], pos[w]) = {i}} : i \in 1..3}

XYFails(st, e) ==
    LET g == st.g IN
    CASE e.op = "parts" ->
            IF ~Fit(g) THEN {"a graph that is not biconnected and cubic is refused"}
            ELSE IF \E i \in 1..Len(e.r) : ~PartRowsOk(g, e.r[i]) THEN {"every result lists the three neighbours of every vertex"}
            ELSE LET got == [i \in 1..Len(e.r) |-> PartOf(e.r[i])] IN
                 GClause("every result is a partition into perfect matchings", ToSet(got) \subseteq Partitions(g)) \cup
                 GClause("every partition is found", Partitions(g) \subseteq ToSet(got)) \cup
                 GClause("no partition is repeated", IsInjective(got))
      [] e.op = "embs" ->
            IF ~Fit(g) THEN {"a graph that is not biconnected and cubic is refused"}
            ELSE IF \E i \in 1..Len(e.r) : ~EmbOk(g, e.r[i]) THEN {"every embedding has edges exactly along axis-parallel lines"}
            ELSE LET got == [i \in 1..Len(e.r) |-> EmbPart(g, e.r[i])] IN
                 GClause("every embedding is found", XyzOnes(g) \subseteq ToSet(got)) \cup
                 GClause("no embedding is repeated", IsInjective(got))
      [] e.op = "refused" -> GClause("a biconnected cubic graph is accepted", ~Fit(g))
      [] e.op = "isxyz" -> GClause("point sets recognised exactly", e.r <=> IsXyz(ToSet(e.p)))
      [] e.op = "same" -> GClause("the argument is left unchanged", e.r)
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
XYApply(st, e) == st
=============================================================================

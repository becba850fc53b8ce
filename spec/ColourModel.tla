----------------------------- MODULE ColourModel -----------------------------
(***************************************************************************)
(* Splitting a cubic graph into three matchings by giving directions to    *)
(* the edges leaving each vertex along an order in which every vertex but  *)
(* the ends has an earlier and a later neighbour.  The first vertex fixes  *)
(* its three directions; a vertex with one earlier neighbour has two       *)
(* choices, one with two has one.  For every labelled cubic graph with N   *)
(* vertices (and the cube for N = 8) and every such order, the choices at  *)
(* each step split the partitions still possible into disjoint parts, so   *)
(* each partition is produced exactly once.  Also checks that a partition  *)
(* gives an xyz graph exactly when its generic positions do.               *)
(***************************************************************************)
EXTENDS Xyz, TLC, Json, IOUtils
CONSTANT N
VARIABLES g, done, col      \* done: vertices placed in order; col: direction of edges at placed vertices
vars == <<g, done, col>>
CubeGraph == [v \in 1..8 |-> {w \in 1..8 : Cardinality({i \in {1, 2, 4} : ((v - 1) \div i) % 2 # ((w - 1) \div i) % 2}) = 1}]
RECURSIVE Cub(_, _)     \* cubic graphs on 1..N: fill the vertices in order
Cub(v, h) == IF v > N THEN {h}
    ELSE LET need == 3 - Cardinality(h[v])
             C == {S \in SUBSET {w \in (v + 1)..N : Cardinality(h[w]) < 3} : Cardinality(S) = need} IN
         UNION {Cub(v + 1, [w \in 1..N |-> IF w = v THEN h[w] \cup S ELSE IF w \in S THEN h[w] \cup {v} ELSE h[w]]) : S \in C}
Family == IF N = 8 THEN {CubeGraph} ELSE {h \in Cub(1, [v \in 1..N |-> {}]) : NoCutVertex(h)}
Init == /\ g \in Family /\ done = <<>> /\ col = <<>>
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson(JG(g))) ELSE TRUE
Placed == ToSet(done)
Colour(c, v, w) == c[{v, w}]
\* proper ways to colour the uncoloured edges at v
Ways(v) == LET old == {e \in DOMAIN col : v \in e}
               new == {{v, w} : w \in g[v]} \ old IN
           IF Cardinality({col[e] : e \in old}) < Cardinality(old) THEN {}
           ELSE IF old = {} THEN {CHOOSE f \in [new -> 1..3] : \A a, b \in new : a # b => f[a] # f[b]}
           ELSE {f \in [new -> 1..3] : (\A a, b \in new : a # b => f[a] # f[b]) /\ \A a \in new, b \in old : f[a] # col[b]}
May(v) == /\ v \notin Placed
          /\ done # <<>> => g[v] \cap Placed # {}
          /\ Len(done) < Cardinality(V(g)) - 1 => \E w \in g[v] : w \notin Placed
Next == \E v \in V(g) : /\ May(v)
                        /\ \E f \in Ways(v) : col' = f @@ col
                        /\ done' = Append(done, v) /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
\* partitions that agree with the colours so far
Agree(c) == {p \in Partitions(g) : \A a, b \in DOMAIN c : (c[a] = c[b]) <=> \E m \in p : a \in m /\ b \in m}
Split == \A v \in V(g) : May(v) =>
            LET W == Ways(v) IN
            /\ Agree(col) = UNION {Agree(f @@ col) : f \in W}
            /\ \A f, h \in W : f # h => Agree(f @@ col) \cap Agree(h @@ col) = {}
Whole == Len(done) = Cardinality(V(g)) => Cardinality(Agree(col)) = 1
\* positions by two-coloured cycles
Generic(p) == LET Q == SetToSeq(p)  C == [i \in 1..3 |-> Planes(g, Edges(g) \ Q[i])] IN
              [v \in V(g) |-> [i \in 1..3 |-> CHOOSE x \in V(g) : x \in PlaneOf(C[i], v) /\ \A y \in PlaneOf(C[i], v) : x <= y]]
Points == done = <<>> => \A p \in Partitions(g) :
            LET pos == Generic(p) IN
            XyzPartition(g, p) <=> (IsXyz({pos[v] : v \in V(g)}) /\
                                    \A v, w \in V(g) : v # w => pos[v] # pos[w])
=============================================================================

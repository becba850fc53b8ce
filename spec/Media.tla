-------------------------------- MODULE Media --------------------------------
(***************************************************************************)
(* Token systems, media and partial cubes.  A token system is a record     *)
(* [s : states, t : tokens, act : state -> token -> state, rev : token ->  *)
(* token].  It is a medium when the states reached from each other by      *)
(* tokens form a graph whose distances are exactly the numbers of tokens   *)
(* whose half-space separates the two states.  MediaMeaning compares this  *)
(* with the axioms on concise and closed token sequences, and the same     *)
(* definition of partial cubes with explicit isometric embeddings.         *)
(***************************************************************************)
EXTENDS Graphs

\* ---------------------------------------------------------------- graphs
DistAll(g) == TLCEval([v \in V(g) |-> TLCEval(DistFrom(g, v))])
Half(d, v, w) == {u \in DOMAIN d : d[u][v] < d[u][w]}
\* the cut classes of edges, as half-spaces (both sides of every cut)
Halves(g, d) == {Half(d, a[1], a[2]) : a \in Arcs(g)}
Separated(H, u, v) == Cardinality({h \in H : u \in h /\ v \notin h})
PartialCube(g) == /\ V(g) # {} /\ Undirected(g) /\ Connected(g)
                  /\ LET d == DistAll(g)  H == Halves(g, d) IN
                     /\ \A h \in H : (V(g) \ h) \in H
                     /\ \A u, v \in V(g) : d[u][v] = Separated(H, u, v)
\* bits: vertex -> set of bit positions
Isometric(g, bits) == LET d == DistAll(g) IN
    \A u, v \in V(g) : d[u][v] = Cardinality((bits[u] \ bits[v]) \cup (bits[v] \ bits[u]))

\* --------------------------------------------------------- token systems
StateGraph(M) == [s \in M.s |-> {M.act[s][t] : t \in M.t} \ {s}]
Effective(M, s) == {t \in M.t : M.act[s][t] # s}
Doubled(M) == \E s \in M.s : \E t, r \in Effective(M, s) : t # r /\ M.act[s][t] = M.act[s][r]
RevOk(M) == \A s \in M.s, t \in M.t : M.act[s][t] # s => M.act[M.act[s][t]][M.rev[t]] = s
SomeStep(M, t) == CHOOSE s \in M.s : M.act[s][t] # s
IsMedium(M) ==
    LET g == StateGraph(M) IN
    /\ M.s # {} /\ Connected(g) /\ RevOk(M)
    /\ LET d == DistAll(g)
           used == {t \in M.t : \E s \in M.s : M.act[s][t] # s}
           W == [t \in used |-> LET s == SomeStep(M, t) IN Half(d, s, M.act[s][t])] IN
       \* being in W[t] means t is the token leading out of it
       /\ \A t \in used : M.rev[t] # t /\ M.rev[t] \in used /\ W[M.rev[t]] = M.s \ W[t]
       /\ \A t \in used, s \in M.s : M.act[s][t] # s => Half(d, s, M.act[s][t]) = W[t]
       /\ \A t, r \in used : W[t] = W[r] => t = r
       /\ \A u, v \in M.s : d[u][v] = Cardinality({t \in used : u \in W[t] /\ v \notin W[t]})

\* tokens <<i, FALSE>> and <<i, TRUE>> are numbered 2i+1 and 2i+2; vec: state -> set of bits
FromBits(vec, len) ==
    LET n == Len(vec)
        all == {vec[s] : s \in 1..n}
        num(S) == CHOOSE s \in 1..n : vec[s] = S
        move(S, t) == LET i == (t - 1) \div 2 IN IF t % 2 = 1 THEN S \ {i} ELSE S \cup {i} IN
    [s |-> 1..n, t |-> 1..(2 * len),
     act |-> [s \in 1..n |-> [t \in 1..(2 * len) |-> IF move(vec[s], t) \in all THEN num(move(vec[s], t)) ELSE s]],
     rev |-> [t \in 1..(2 * len) |-> IF t % 2 = 1 THEN t + 1 ELSE t - 1]]

\* the same for many states: in a family of vectors every two of which are joined through
\* the family by single changes towards the other, distances are numbers of differing bits
Apart(S, T) == (S \ T) \cup (T \ S)
Turned(S, i) == IF i \in S THEN S \ {i} ELSE S \cup {i}
WellGraded(A) == A # {} /\ \A S, T \in A : S # T => \E i \in Apart(S, T) : Turned(S, i) \in A
TokenTo(S, i) == 2 * i + (IF i \in S THEN 1 ELSE 2)      \* the token that turns bit i of S
\* rows[v]: sequence of <<w, token>>
LabOk(rows) ==
    LET n == Len(rows)
        lab(v, w) == (CHOOSE p \in ToSet(rows[v]) : p[1] = w)[2]
        nb(v) == {p[1] : p \in ToSet(rows[v])} IN
    /\ \A v \in 1..n : v \notin nb(v) /\ \A w \in nb(v) : v \in nb(w)
    /\ \A v \in 1..n, w, x \in 1..n : (w \in nb(v) /\ x \in nb(v) /\ w # x) => lab(v, w) # lab(v, x)
    /\ \A v, x \in 1..n : \A w \in nb(v), y \in nb(x) : /\ lab(v, w) = lab(x, y) => lab(w, v) = lab(y, x)
FromLabels(rows) ==
    LET n == Len(rows)
        T == UNION {{p[2] : p \in ToSet(rows[v])} : v \in 1..n}
        lab(v, w) == (CHOOSE p \in ToSet(rows[v]) : p[1] = w)[2] IN
    [s |-> 1..n, t |-> T,
     act |-> [v \in 1..n |-> [t \in T |-> IF \E p \in ToSet(rows[v]) : p[2] = t
                                          THEN (CHOOSE p \in ToSet(rows[v]) : p[2] = t)[1] ELSE v]],
     rev |-> [t \in T |-> LET v == CHOOSE v \in 1..n : \E p \in ToSet(rows[v]) : p[2] = t
                              w == (CHOOSE p \in ToSet(rows[v]) : p[2] = t)[1] IN lab(w, v)]]

\* ---------------------------------------------------------------- events
MEFails(st, e) ==
    CASE e.op = "system" ->   \* states, tokens, reverse pairs, action triples as reported
            LET M == st.m
                T == IF e.used THEN {t \in M.t : \E s \in M.s : M.act[s][t] # s} ELSE M.t IN
            GClause("a labelled graph with ambiguous tokens is refused", st.ok) \cup
            (IF ~st.ok THEN {} ELSE
            GClause("states listed once each", IsInjective(e.s) /\ ToSet(e.s) = M.s /\ e.len = Cardinality(M.s)) \cup
            GClause("tokens listed once each", IsInjective(e.t) /\ ToSet(e.t) = T) \cup
            GClause("reverses", {<<p[1], p[2]>> : p \in ToSet(e.rev)} = {<<t, M.rev[t]>> : t \in T}) \cup
            GClause("actions", Len(e.act) = Cardinality(M.s) * Cardinality(T) /\
                               {<<p[1], p[2], p[3]>> : p \in ToSet(e.act)} = {<<s, t, M.act[s][t]>> : s \in M.s, t \in T}) \cup
            GClause("table of a state", Len(e.get) = Cardinality(M.s) * Cardinality(T) /\
                               {<<p[1], p[2], p[3]>> : p \in ToSet(e.get)} = {<<s, t, M.act[s][t]>> : s \in M.s, t \in T}))
      [] e.op = "nograph" -> GClause("only states joined by several tokens are refused", Doubled(st.m))
      [] e.op = "effective" ->   \* pairs <<state, tokens listed>>
            GClause("effective tokens of every state", Len(e.r) = Cardinality(st.m.s) /\
                \A p \in ToSet(e.r) : p[1] \in st.m.s /\ IsInjective(p[2]) /\ ToSet(p[2]) = Effective(st.m, p[1]))
      [] e.op = "refused" -> GClause("a consistently labelled graph is accepted", ~st.ok)
      [] e.op = "graph" ->    \* triples <<s, s', token>>
            LET M == st.m IN
            GClause("states joined by several tokens are refused", ~Doubled(M)) \cup
            GClause("exactly the effective transitions",
                Len(e.r) = Cardinality(Arcs(StateGraph(M))) /\
                {<<p[1], p[2], p[3]>> : p \in ToSet(e.r)} =
                    UNION {{<<s, M.act[s][t], t>> : t \in Effective(M, s)} : s \in M.s})
      [] e.op = "routes" ->   \* triples <<from, to, token>>
            LET M == st.m
                d == DistAll(StateGraph(M)) IN
            \* routing recognises every family of bit vectors that is not a medium, but
            \* makes no such promise for arbitrary labelled graphs
            GClause("a family that is not a medium is refused", st.kind = "bits" => IsMedium(M)) \cup
            (IF ~IsMedium(M) THEN {} ELSE
             GClause("a route for every pair", Len(e.r) = Cardinality(M.s) * (Cardinality(M.s) - 1) /\
                     {<<p[1], p[2]>> : p \in ToSet(e.r)} = {<<u, v>> \in M.s \X M.s : u # v}) \cup
             GClause("every route step comes closer",
                     \A p \in ToSet(e.r) : p[3] \in M.t /\ d[M.act[p[1]][p[3]]][p[2]] = d[p[1]][p[2]] - 1))
      [] e.op = "noroutes" -> GClause("a medium is accepted", ~IsMedium(st.m))
      [] e.op = "embed" ->    \* pairs <<state, bits set>>
            LET M == st.m
                b == [s \in M.s |-> ToSet((CHOOSE p \in ToSet(e.r) : p[1] = s)[2])] IN
            IF ~(Len(e.r) = Cardinality(M.s) /\ {p[1] : p \in ToSet(e.r)} = M.s) THEN {"coordinates for every state"}
            ELSE GClause("coordinates isometric", IsMedium(M) => Isometric(StateGraph(M), b))
      [] e.op = "fargraph" ->
            LET vec == st.vec
                A == {vec[s] : s \in DOMAIN vec} IN
            GClause("exactly the effective transitions",
                /\ \A p \in ToSet(e.r) : /\ p[1] \in DOMAIN vec /\ p[2] \in DOMAIN vec
                                         /\ \E i \in Apart(vec[p[1]], vec[p[2]]) : Apart(vec[p[1]], vec[p[2]]) = {i} /\ p[3] = TokenTo(vec[p[1]], i)
                /\ IsInjective(e.r)
                /\ Len(e.r) = FoldSet(LAMBDA s, a : a + Cardinality({i \in 0..(st.len - 1) : Turned(vec[s], i) \in A}), 0, DOMAIN vec))
      [] e.op = "farroutes" ->
            LET vec == st.vec
                n == Len(vec)
                A == {vec[s] : s \in DOMAIN vec} IN
            GClause("a family that is not a medium is refused", WellGraded(A)) \cup
            GClause("a route for every pair", Len(e.r) = n * (n - 1) /\ Cardinality({<<p[1], p[2]>> : p \in ToSet(e.r)}) = n * (n - 1)) \cup
            GClause("every route step comes closer",
                \A p \in ToSet(e.r) : /\ p[1] \in 1..n /\ p[2] \in 1..n /\ p[1] # p[2]
                                      /\ \E i \in Apart(vec[p[1]], vec[p[2]]) : p[3] = TokenTo(vec[p[1]], i) /\ Turned(vec[p[1]], i) \in A)
      [] e.op = "farnoroutes" -> GClause("a medium is accepted", ~WellGraded({st.vec[s] : s \in DOMAIN st.vec}))
      [] e.op = "farembed" ->
            LET b == FoldLeft(LAMBDA a, p : TLCEval([a EXCEPT ![p[1]] = ToSet(p[2])]), st.vec, e.r) IN
            IF ~(Len(e.r) = Len(st.vec) /\ {p[1] : p \in ToSet(e.r)} = DOMAIN st.vec) THEN {"coordinates for every state"}
            ELSE GClause("coordinates isometric", \A u, v \in DOMAIN st.vec : Cardinality(Apart(b[u], b[v])) = Cardinality(Apart(st.vec[u], st.vec[v])))
      [] e.op = "cube" -> GClause("partial cube recognised exactly", e.r <=> PartialCube(st.g))
      [] e.op = "labels" ->   \* triples <<v, w, class>>
            LET d == DistAll(st.g) IN
            GClause("a graph that is not a partial cube is refused", PartialCube(st.g)) \cup
            (IF ~PartialCube(st.g) THEN {} ELSE
             IF ~(Len(e.r) = Cardinality(Arcs(st.g)) /\ {<<p[1], p[2]>> : p \in ToSet(e.r)} = Arcs(st.g))
             THEN {"labels on exactly the edges"}
             \* one label for each cut class and one cut class for each label
             ELSE LET R == {<<p[3], Half(d, p[1], p[2])>> : p \in ToSet(e.r)} IN
                  GClause("equal labels exactly within a cut class",
                      Cardinality(R) = Cardinality({x[1] : x \in R}) /\ Cardinality(R) = Cardinality({x[2] : x \in R})))
      [] e.op = "nolabels" -> GClause("a partial cube is labelled", ~PartialCube(st.g))
      [] e.op = "coords" ->   \* pairs <<v, bits>>
            LET b == [v \in V(st.g) |-> ToSet((CHOOSE p \in ToSet(e.r) : p[1] = v)[2])] IN
            GClause("a graph that is not a partial cube is refused", PartialCube(st.g)) \cup
            (IF ~PartialCube(st.g) THEN {} ELSE
             IF ~(Len(e.r) = Cardinality(V(st.g)) /\ {p[1] : p \in ToSet(e.r)} = V(st.g)) THEN {"a label for every vertex"}
             ELSE GClause("labels differ in as many bits as the distance", Isometric(st.g, b)))
      [] e.op = "medium" ->   \* medium of a partial cube: tokens move along edges
            GClause("a graph that is not a partial cube is refused", PartialCube(st.g)) \cup
            GClause("tokens of the medium move exactly along edges",
                {<<p[1], p[3]>> : p \in {q \in ToSet(e.act) : q[1] # q[3]}} = Arcs(st.g) /\
                Cardinality({p \in ToSet(e.act) : p[1] # p[3]}) = Cardinality(Arcs(st.g)))
      [] e.op = "nocube" -> GClause("a partial cube is accepted", ~PartialCube(st.g))
      [] e.op = "same" -> GClause("the argument is left unchanged", e.r)
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
MEApply(st, e) == st
=============================================================================

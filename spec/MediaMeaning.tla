---------------------------- MODULE MediaMeaning ----------------------------
(***************************************************************************)
(* On every N-vertex graph: the distance definition of partial cubes       *)
(* agrees with searching for an isometric map to a cube.  On every family  *)
(* of L-bit vectors: the half-space definition of media agrees with the    *)
(* axioms, concise walks between all states and balanced closed walks      *)
(* (closed walks up to twice the number of states).                        *)
(***************************************************************************)
EXTENDS Media, TLC, Json, IOUtils
CONSTANTS N, L
VARIABLES kind, x
vars == <<kind, x>>
Emit(k, v) == IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson([k |-> k, v |-> v])) ELSE TRUE
Init == \/ kind = "g" /\ x \in AllGraphs(N) /\ Emit("g", JG(x))
        \/ kind = "b" /\ x \in (SUBSET (SUBSET (0..(L - 1)))) \ {{}} /\ Emit("b", SetToSeq({SetToSeq(s) : s \in x}))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* all isometric maps of 1..k into subsets of 1..N-1, extended vertex by vertex
RECURSIVE Maps(_, _, _)
Maps(d, k, F) == IF k > N THEN F
    ELSE Maps(d, k + 1, UNION {{Append(f, b) : b \in {b \in SUBSET (1..(N - 1)) :
             \A i \in 1..(k - 1) : d[i][k] = Cardinality((f[i] \ b) \cup (b \ f[i]))}} : f \in F})
Cubes == kind = "g" => IF ~Connected(x) THEN ~PartialCube(x)
                       ELSE PartialCube(x) <=> Maps(DistAll(x), 2, {<< {} >>}) # {}
M == FromBits(SetToSeq(x), L)
\* walks of effective tokens: [at, from, used]
RECURSIVE Concise(_, _, _)     \* states reachable from a set of <<state, tokens used>> by concise walks
Concise(m, front, seen) == IF front = {} THEN seen
    ELSE LET nx == UNION {{<<m.act[p[1]][t], p[2] \cup {t}>> :
                           t \in {t \in Effective(m, p[1]) : t \notin p[2] /\ m.rev[t] \notin p[2]}} : p \in front} \ seen
         IN Concise(m, nx, seen \cup nx)
Con(m) == \A s \in m.s : {p[1] : p \in Concise(m, {<<s, {}>>}, {<<s, {}>>})} = m.s
\* net effect of walks: state with the multiset difference of tokens, kept as coordinate -> integer
RECURSIVE Net(_, _, _, _)
Net(m, k, front, seen) == IF k = 0 \/ front = {} THEN seen
    ELSE LET nx == UNION {{<<m.act[p[1]][t], [p[2] EXCEPT ![(t - 1) \div 2] = @ + (IF t % 2 = 1 THEN -1 ELSE 1)]>>
                            : t \in Effective(m, p[1])} : p \in front} \ seen
         IN Net(m, k - 1, nx, seen \cup nx)
Balanced(m) == \A s \in m.s : LET z == [i \in 0..(L - 1) |-> 0] IN
                  \A p \in Net(m, 2 * Cardinality(m.s), {<<s, z>>}, {<<s, z>>}) : p[1] = s => p[2] = z
Axioms == kind = "b" => (IsMedium(M) <=> (RevOk(M) /\ Con(M) /\ Balanced(M)))
\* the short test for families of vectors, and what it says about distances
Graded == kind = "b" => /\ IsMedium(M) <=> WellGraded(x)
                        /\ WellGraded(x) => LET d == DistAll(StateGraph(M))  q == SetToSeq(x) IN
                                            \A u, v \in M.s : d[u][v] = Cardinality(Apart(q[u], q[v]))
=============================================================================

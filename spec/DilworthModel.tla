---------------------------- MODULE DilworthModel ----------------------------
(***************************************************************************)
(* Chain covers as matchings.  For every acyclic graph on N vertices,      *)
(* either as given or transitively closed, links (tail, head) are kept so  *)
(* that no tail and no head is used twice; any augmenting path may be      *)
(* flipped.  Links always form a cover by n - |links| paths.  When nothing *)
(* can be augmented, the vertices of the alternating search give a         *)
(* touching set as large as the matching, and on closed graphs the         *)
(* untouched vertices form an antichain with one vertex on every chain.    *)
(***************************************************************************)
EXTENDS Orders, TLC, Json, IOUtils
CONSTANTS N
VARIABLES g, m            \* m: set of arcs <<tail, head>>
vars == <<g, m>>
Dags == {h \in AllDigraphs(N, FALSE) : Acyclic(h)}
Init == /\ g \in Dags /\ m = {}
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson(JG(g))) ELSE TRUE
Tails == {a[1] : a \in m}
Heads == {a[2] : a \in m}
Free == V(g) \ Tails
\* alternating paths from a free tail: <<tail, head, tail, head, ...>>
RECURSIVE Aug(_)
Aug(p) == LET x == p[Len(p)]
              hs == {p[i] : i \in {i \in 1..Len(p) : i % 2 = 0}} IN
    UNION {IF y \notin Heads THEN {Append(p, y)}
           ELSE LET z == (CHOOSE a \in m : a[2] = y)[1] IN
                Aug(p \o <<y, z>>) : y \in {y \in g[x] \ hs : <<x, y>> \notin m}}
Paths == UNION {Aug(<<v>>) : v \in Free}
Flip(p) == LET new == {<<p[i], p[i + 1]>> : i \in {i \in 1..(Len(p) - 1) : i % 2 = 1}}
               old == {<<p[i + 1], p[i]>> : i \in {i \in 1..(Len(p) - 1) : i % 2 = 0}}
           IN (m \ old) \cup new
Next == \E p \in Paths : m' = Flip(p) /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
IsMatching == Cardinality(Tails) = Cardinality(m) /\ Cardinality(Heads) = Cardinality(m) /\ m \subseteq Arcs(g)
\* alternating search from the free tails
RECURSIVE Alt(_)
Alt(S) == LET hs == UNION {g[v] : v \in S}
              S2 == S \cup {a[1] : a \in {a \in m : a[2] \in hs}} IN IF S2 = S THEN S ELSE Alt(S2)
Seen == Alt(Free)
HeadsSeen == UNION {g[v] : v \in Seen}
Bound == Paths = {} => /\ Touches(g, V(g) \ Seen, HeadsSeen)
                       /\ Cardinality(V(g) \ Seen) + Cardinality(HeadsSeen) = Cardinality(m)
Follow(v) == LET RECURSIVE f(_) f(u) == IF \E a \in m : a[1] = u THEN <<u>> \o f((CHOOSE a \in m : a[1] = u)[2]) ELSE <<u>> IN f(v)
Cover == LET P == SetToSeq({Follow(v) : v \in V(g) \ Heads}) IN
         IsCover(g, P) /\ Len(P) = N - Cardinality(m)
Transitive == Closure(g) = g
Width == Max({Cardinality(A) : A \in {A \in SUBSET V(g) : Antichain(g, A)}})
Dilworth == (Transitive /\ Paths = {}) =>
               LET A == Seen \ HeadsSeen IN
               Antichain(g, A) /\ Cardinality(A) = N - Cardinality(m) /\ Cardinality(A) = Width
=============================================================================

----------------------------- MODULE HalinModel -----------------------------
(***************************************************************************)
(* Recognition by reductions.  From every N-vertex graph, or from every    *)
(* graph with at most seven vertices up to isomorphism (N = 0), triangles  *)
(* are collapsed and paths shortened in any order until nothing applies,   *)
(* in four modes: both reductions, triangles only, paths only, and both    *)
(* with marking of outer vertices.  Whatever the order, the final graph    *)
(* gives the verdict of the definitions.                                   *)
(***************************************************************************)
EXTENDS Halin, TLC, Json, IOUtils
CONSTANT N
VARIABLES g0, g, mode, outer
vars == <<g0, g, mode, outer>>
Family == IF N = 0 THEN {GOf(a) : a \in ToSet(JsonDeserialize("../data/atlas7.json"))}
          ELSE {h \in AllGraphs(N) : \A v \in 1..N : Cardinality(h[v]) >= 2}
Init == /\ g0 \in Family /\ g = g0 /\ mode \in {"both", "tri", "path", "halin"} /\ outer = {}
        /\ IF IOEnv.EMIT = "1" /\ mode = "both" THEN PrintT("GEN " \o ToJson(JG(g))) ELSE TRUE
TriOk(t) == mode # "path" /\ (mode = "halin" => ~({t[1], t[2], t[3]} \subseteq outer))
PathOk(p) == mode # "tri" /\ (mode = "halin" => p[4] \notin outer)
Next == \/ \E t \in Tris(g) : /\ TriOk(t) /\ g' = Collapse(g, t)
                              /\ outer' = MarkTri(g, outer, t)
                              /\ UNCHANGED <<g0, mode>>
        \/ \E p \in Pths(g) : /\ PathOk(p) /\ g' = Shorten(g, p)
                              /\ outer' = MarkPath(g, outer, p)
                              /\ UNCHANGED <<g0, mode>>
Spec == Init /\ [][Next]_vars
Stuck == (\A t \in Tris(g) : ~TriOk(t)) /\ (\A p \in Pths(g) : ~PathOk(p))
Verdict == Stuck => CASE mode = "both" -> K4(g) <=> Reducible(g0)
                      [] mode = "tri" -> K4(g) <=> Dual3Tree(g0)
                      [] mode = "path" -> K4(g) <=> Wheel(g0)
                      [] mode = "halin" -> (K4(g) /\ ~(V(g) \subseteq outer)) <=> IsHalin(g0)
StaysSimple == \A v \in V(g) : v \notin g[v] /\ g[v] \subseteq V(g) /\ \A w \in g[v] : v \in g[w]
Included == (Stuck /\ mode = "both") => /\ (IsHalin(g0) => Reducible(g0)) /\ (Wheel(g0) => IsHalin(g0))
=============================================================================

---------------------------- MODULE AugmentModel ----------------------------
(***************************************************************************)
(* Bipartite matching by phases, as implemented: alternating layers from   *)
(* the unmatched left vertices until a layer holds unmatched right ones,   *)
(* then backward searches that consume layers, in any order.  On every     *)
(* bipartite graph with A left and B right vertices.  When no layer holds  *)
(* an unmatched right vertex the layered left and unlayered right vertices *)
(* are an independent set that certifies the matching; and the test for    *)
(* edges in perfect matchings agrees with enumerating perfect matchings.   *)
(***************************************************************************)
EXTENDS Matching, TLC, Json, IOUtils
CONSTANTS A, B
VARIABLES g, m, pc, pred, preds, ends, start
vars == <<g, m, pc, pred, preds, ends, start>>
Free(f) == V(g) \ {f[v] : v \in DOMAIN f}
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Set(f, x, z) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN z ELSE f[y]]
None == 0
Init == /\ g \in [1..A -> SUBSET (1..B)]
        /\ m = <<>> /\ pc = "greedy" /\ pred = <<>> /\ preds = <<>> /\ ends = {} /\ start = 0
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson(JG(g))) ELSE TRUE
\* greedy start: each left vertex in any order takes any free neighbour
Greedy == /\ pc = "greedy"
          /\ \/ \E u \in Free(m) : \E v \in g[u] \ DOMAIN m :
                  m' = Set(m, v, u) /\ UNCHANGED pc
             \/ (\A u \in Free(m) : g[u] \subseteq DOMAIN m) /\ pc' = "layer" /\ UNCHANGED m
          /\ UNCHANGED <<g, pred, preds, ends, start>>
RECURSIVE Layer(_, _, _)
Layer(front, pd, ps) ==    \* front: left vertices; returns [pred, preds, ends]
    LET new == (UNION {g[u] : u \in front}) \ DOMAIN ps
        ps2 == [v \in DOMAIN ps \cup new |-> IF v \in new THEN {u \in front : v \in g[u]} ELSE ps[v]]
        hit == new \ DOMAIN m
        nx == {m[v] : v \in new \cap DOMAIN m}
        pd2 == [u \in DOMAIN pd \cup nx |-> IF u \in nx THEN CHOOSE v \in new \cap DOMAIN m : m[v] = u ELSE pd[u]]
    IN  IF hit # {} \/ nx = {} THEN [pred |-> pd2, preds |-> ps2, ends |-> hit] ELSE Layer(nx, pd2, ps2)
Layering == /\ pc = "layer"
            /\ LET L == Layer(Free(m), [u \in Free(m) |-> None], <<>>) IN
               /\ pred' = L.pred /\ preds' = L.preds /\ ends' = L.ends
               /\ pc' = IF L.ends = {} THEN "done" ELSE "search"
            /\ start' = Cardinality(DOMAIN m)
            /\ UNCHANGED <<g, m>>
\* backward search from v, choosing predecessors in any order: all outcomes as <<found, m, pred, preds>>
RECURSIVE Back(_, _, _, _), Try(_, _, _, _, _)
Back(v, mm, pd, ps) ==
    IF v \notin DOMAIN ps THEN {<<FALSE, mm, pd, ps>>}
    ELSE Try(v, ps[v], mm, pd, Drop(ps, v))
Try(v, cand, mm, pd, ps) ==
    IF cand = {} THEN {<<FALSE, mm, pd, ps>>}
    ELSE UNION {IF u \notin DOMAIN pd THEN Try(v, cand \ {u}, mm, pd, ps)
                ELSE LET outs == IF pd[u] = None THEN {<<TRUE, mm, Drop(pd, u), ps>>}
                                 ELSE Back(pd[u], mm, Drop(pd, u), ps)
                     IN  UNION {IF o[1] THEN {<<TRUE, Set(o[2], v, u), o[3], o[4]>>}
                                ELSE Try(v, cand \ {u}, o[2], o[3], o[4]) : o \in outs}
                : u \in cand}
Search == /\ pc = "search"
          /\ IF ends = {} THEN pc' = "layer" /\ UNCHANGED <<m, pred, preds, ends>>
             ELSE \E v \in ends : \E o \in Back(v, m, pred, preds) :
                    /\ ends' = ends \ {v} /\ m' = o[2] /\ pred' = o[3] /\ preds' = o[4] /\ pc' = pc
          /\ UNCHANGED <<g, start>>
Next == Greedy \/ Layering \/ Search
Spec == Init /\ [][Next]_vars
Matched == IsMatching(g, m)
Progress == pc = "search" /\ ends = {} => Cardinality(DOMAIN m) > start
Certified == pc = "done" => Certifies(g, m, DOMAIN pred, Right(g) \ DOMAIN preds)
AllPerfect == {f \in [Right(g) -> V(g)] : Perfect(g, f)}
EdgeTest == pc = "done" /\ Perfect(g, m) =>
    Allowed(g, m) = UNION {{<<f[v], v>> : v \in DOMAIN f} : f \in AllPerfect}
=============================================================================

--------------------------- MODULE UnionFindForest ---------------------------
(***************************************************************************)
(* The implementation-shaped machine: a parent forest with weights, path   *)
(* compression on lookup and union under a heaviest root.  It must refine  *)
(* the abstract partition of UnionFind.  With EMIT set, every history of   *)
(* Depth requests is printed for replay into the implementation.           *)
(***************************************************************************)
EXTENDS UnionFind, TLC, Json, IOUtils

CONSTANTS N, Depth, MaxArgs

Items == 1..N

VARIABLES parent,   \* 0 for an item never seen
          weight,
          abs,      \* abstract state driven by the same requests
          h         \* requests so far

vars == <<parent, weight, abs, h>>

RECURSIVE RootOf(_, _)
RootOf(p, x) == IF p[x] = x THEN x ELSE RootOf(p, p[x])

RECURSIVE PathOf(_, _)
PathOf(p, x) == IF p[x] = x THEN {x} ELSE {x} \cup PathOf(p, p[x])

Known(p) == {x \in Items : p[x] # 0}

\* lookup: returns <<parent', weight'>>
Look(p, w, x) ==
    IF p[x] = 0 THEN <<[p EXCEPT ![x] = x], [w EXCEPT ![x] = 1]>>
    ELSE LET r == RootOf(p, x) IN <<[y \in Items |-> IF y \in PathOf(p, x) THEN r ELSE p[y]], w>>

RECURSIVE LookAll(_, _, _)
LookAll(p, w, xs) == IF xs = <<>> THEN <<p, w>>
                     ELSE LET q == Look(p, w, Head(xs)) IN LookAll(q[1], q[2], Tail(xs))

Init == /\ parent = [x \in Items |-> 0]
        /\ weight = [x \in Items |-> 0]
        /\ abs = UFEmpty
        /\ h = <<>>

Find(x) ==
    LET q == Look(parent, weight, x)
        r == RootOf(q[1], x)
        e == [op |-> "find", x |-> x, r |-> r]
    IN  /\ Assert(UFFails(abs, e) = {}, <<"lookup breaks the abstract machine", parent, e, UFFails(abs, e)>>)
        /\ parent' = q[1] /\ weight' = q[2]
        /\ abs' = UFApply(abs, e)

Union(xs) ==
    LET q == LookAll(parent, weight, xs)
        roots == {RootOf(q[1], x) : x \in ToSet(xs)}
        heavy == {r \in roots : \A r2 \in roots : q[2][r] >= q[2][r2]}
    IN  \E top \in heavy :                       \* ties are broken arbitrarily
          /\ parent' = [x \in Items |-> IF x \in roots THEN top ELSE q[1][x]]
          /\ weight' = [q[2] EXCEPT ![top] = SumSet({0}) + FoldSet(LAMBDA r, a : a + q[2][r], 0, roots)]
          /\ abs' = UFApply(abs, [op |-> "union", xs |-> xs])

Args == UNION {[1..k -> Items] : k \in 1..MaxArgs}

Emit(hh) == IF IOEnv.EMIT = "1" /\ Len(hh) = Depth THEN PrintT("GEN " \o ToJson(hh)) ELSE TRUE

Next == /\ Len(h) < Depth
        /\ \/ \E x \in Items : Find(x) /\ h' = Append(h, [f |-> x])
           \/ \E xs \in Args : Union(xs) /\ h' = Append(h, [u |-> xs])
        /\ Emit(h')

Spec == Init /\ [][Next]_vars

\* Properties of the forest
Connected == /\ Known(parent) = UFSeen(abs)
             /\ \A x, y \in Known(parent) :
                  (RootOf(parent, x) = RootOf(parent, y)) <=> (UFBlock(abs, x) = UFBlock(abs, y))
WeightIsSize == \A x \in Known(parent) : parent[x] = x => weight[x] = Cardinality(UFBlock(abs, x))
IsPartition == \A a, b \in abs.part : a = b \/ a \cap b = {}
=============================================================================

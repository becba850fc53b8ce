----------------------------- MODULE BlockModel -----------------------------
(***************************************************************************)
(* Depth-first search with low points, on every undirected N-vertex graph  *)
(* and every order of roots and children: closing a component when the     *)
(* child's low point is the parent, and relating edges for an              *)
(* st-orientation through the vertex its low point names.                  *)
(***************************************************************************)
EXTENDS Biconnected, TLC, Json, IOUtils
CONSTANT N
VARIABLES g, stack, num, low, lowv, act, alen, anc, comps, down, rel, roots
vars == <<g, stack, num, low, lowv, act, alen, anc, comps, down, rel, roots>>
Init == /\ g \in AllGraphs(N)
        /\ stack = <<>> /\ num = <<>> /\ low = <<>> /\ lowv = <<>> /\ act = <<>> /\ alen = <<>>
        /\ anc = <<>> /\ comps = <<>> /\ down = <<>> /\ rel = {} /\ roots = <<>>
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson(JG(g))) ELSE TRUE
Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Less(f, x, y) == [f EXCEPT ![x] = IF y < @ THEN y ELSE @]
Seen == DOMAIN num

Enter(p, c, st) ==
    LET k == Cardinality(Seen)
        a == IF p = c THEN <<c>> ELSE Append(act, c) IN
    /\ stack' = Append(st, [v |-> c, rem |-> g[c]])
    /\ num' = Put(num, c, k) /\ low' = Put(low, c, k) /\ lowv' = Put(lowv, k, c)
    /\ anc' = Put(anc, c, {}) /\ act' = a /\ alen' = Put(alen, c, Len(a))
    /\ down' = Put(down, p, c)
    /\ UNCHANGED <<g, comps, rel, roots>>
Root(v) == stack = <<>> /\ v \notin Seen /\ Enter(v, v, stack)
Child(w) ==
    LET k == Len(stack)
        p == stack[k].v
        st == [stack EXCEPT ![k].rem = @ \ {w}] IN
    /\ k > 0 /\ w \in stack[k].rem
    /\ IF w \notin Seen THEN Enter(p, w, st)
       ELSE /\ stack' = st
            /\ IF num[w] < num[p]
               THEN /\ low' = Less(low, p, num[w])
                    /\ anc' = [anc EXCEPT ![p] = @ \cup {w}]
                    /\ rel' = IF p # down[w] THEN rel \cup {<<<<w, down[w]>>, <<w, p>>>>} ELSE rel
               ELSE UNCHANGED <<low, anc, rel>>
            /\ UNCHANGED <<g, num, lowv, act, alen, comps, down, roots>>
Close(start, top) ==
    LET vs == {act[i] : i \in (start + 1)..Len(act)} IN
    /\ comps' = Append(comps, UNION {{{x, y} : y \in anc[x]} : x \in vs})
    /\ act' = SubSeq(act, 1, start)
Return ==
    LET k == Len(stack)
        c == stack[k].v
        p == IF k = 1 THEN c ELSE stack[k - 1].v IN
    /\ k > 0 /\ stack[k].rem = {}
    /\ stack' = SubSeq(stack, 1, k - 1)
    /\ IF low[c] # num[p]
       THEN /\ low' = Less(low, p, low[c]) /\ alen' = [alen EXCEPT ![p] = Len(act)]
            \* edge c-p goes the way of the edge from the low vertex to its current child
            /\ rel' = rel \cup {<<<<lowv[low[c]], down[lowv[low[c]]]>>, <<c, p>>>>}
            /\ UNCHANGED <<comps, act, roots>>
       ELSE IF p # c
       THEN Close(alen[p], p) /\ roots' = Append(roots, <<p, c>>) /\ UNCHANGED <<low, alen, rel>>
       ELSE UNCHANGED <<low, alen, rel, comps, act, roots>>
    /\ UNCHANGED <<g, num, lowv, anc, down>>
Next == Return \/ \E v \in V(g) : Root(v) \/ Child(v)
Spec == Init /\ [][Next]_vars
Ended == stack = <<>> /\ Seen = V(g)
Blocks == Ended => /\ ToSet(comps) = BlockEdges(g)
                   /\ Len(comps) = Cardinality(ToSet(comps))
\* spreading the root edge's direction along the relation orients the graph
Flip(a) == <<a[2], a[1]>>
RECURSIVE Spread(_)
Spread(O) == LET nx == O \cup {r[2] : r \in {q \in rel : q[1] \in O}} \cup {Flip(r[2]) : r \in {q \in rel : Flip(q[1]) \in O}}
             IN  IF nx = O THEN O ELSE Spread(nx)
Oriented == Ended /\ Biconn(g) /\ Edges(g) # {} =>
    /\ Len(roots) = 1
    /\ LET O == Spread({roots[1]}) IN
       OrientFails(g, [i \in 1..N |-> <<i, SetToSeq({w \in V(g) : <<i, w>> \in O})>>]) = {}
=============================================================================

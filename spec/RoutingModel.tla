---------------------------- MODULE RoutingModel ----------------------------
(***************************************************************************)
(* Routing in media with one list of active tokens and one pointer per     *)
(* state.  A token is identified with the half-space it leads out of; the  *)
(* active tokens are those leading towards the current state.  The current *)
(* state walks along any edge: the token used is appended, the token that  *)
(* the new current state pointed to is switched off, and states pointing   *)
(* to it scan forward only.  On every N-vertex partial cube, from every    *)
(* start and token order, along every walk of at most K steps: the token   *)
(* switched off is the reverse of the one used, scanning never runs off    *)
(* the list, and every pointer gives a step towards the current state.     *)
(***************************************************************************)
EXTENDS Media, TLC
CONSTANTS N, K
VARIABLES g, cur, list, ptr, ok, k
vars == <<g, cur, list, ptr, ok, k>>
D == DistAll(g)
Off == {}              \* never a half-space
H == Halves(g, D)
Go(s, h) == {w \in g[s] : s \in h /\ w \notin h /\ Half(D, s, w) = h}
Eff(s, h) == h # Off /\ Go(s, h) # {}
\* next effective active token strictly after position i; 0 if none
Scan(lst, s, i) == LET c == {j \in (i + 1)..Len(lst) : Eff(s, lst[j])} IN IF c = {} THEN 0 ELSE Min(c)
Init == /\ g \in {h \in AllGraphs(N) : PartialCube(h)}
        /\ cur \in V(g)
        /\ list \in SetToSeqs({h \in H : cur \notin h})
        /\ ptr = [s \in V(g) |-> IF s = cur THEN 0 ELSE Scan(list, s, 0)]
        /\ ok = TRUE /\ k = 0
Next == /\ k < K /\ k' = k + 1
        /\ \E w \in g[cur] :
             LET h == Half(D, cur, w)
                 gone == ptr[w]
                 new == [Append(list, h) EXCEPT ![gone] = Off] IN
             /\ cur' = w /\ list' = new
             /\ ok' = (ok /\ list[gone] = V(g) \ h)
             /\ ptr' = [s \in V(g) |-> IF s = cur THEN Len(new) ELSE IF s = w THEN 0
                                       ELSE IF ptr[s] = gone THEN Scan(new, s, gone) ELSE ptr[s]]
             /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
Reversed == ok
Active == {list[i] : i \in {i \in 1..Len(list) : list[i] # Off}} = {h \in H : cur \notin h}
Closer == \A s \in V(g) \ {cur} : ptr[s] # 0 /\ Eff(s, list[ptr[s]]) /\
             \A w \in Go(s, list[ptr[s]]) : D[w][cur] = D[s][cur] - 1
First == \A s \in V(g) \ {cur} : ptr[s] = Scan(list, s, 0)
=============================================================================

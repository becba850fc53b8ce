------------------------------ MODULE DfsModel ------------------------------
(***************************************************************************)
(* Iterative depth-first search (a stack of partly consumed neighbour      *)
(* lists, children taken in any order, roots in any order) on every        *)
(* N-vertex digraph, with Tarjan's strong-component bookkeeping riding on  *)
(* its calls the way the implementation does it: one shared low value,     *)
(* raised to "big" when a component is closed.                             *)
(***************************************************************************)
EXTENDS DFS, TLC, Json, IOUtils
CONSTANTS N, Loops
VARIABLES g, stack, s, fin, num, low, act, actlen, comps
vars == <<g, stack, s, fin, num, low, act, actlen, comps>>
Big == N + 1
Init == /\ g \in AllDigraphs(N, Loops)
        /\ stack = <<>> /\ s = DFSInit(g) /\ fin = <<>>
        /\ num = <<>> /\ low = <<>> /\ act = <<>> /\ actlen = <<>> /\ comps = {}
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson(JG(g))) ELSE TRUE
Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Lower(f, x, y) == [f EXCEPT ![x] = IF y < @ THEN y ELSE @]
Report(v, w, t) == /\ Assert(DFSFails(s, v, w, t) = {}, DFSFails(s, v, w, t))
                   /\ s' = DFSApply(s, v, w, t)
Enter(v, w) == /\ stack' = Append(stack, [v |-> w, rem |-> g[w]])
               /\ num' = Put(num, w, Cardinality(DOMAIN num)) /\ low' = Put(low, w, Cardinality(DOMAIN num))
               /\ LET a == IF v = w THEN <<>> ELSE act IN
                  /\ actlen' = Put(actlen, w, Len(a)) /\ act' = Append(a, w)
               /\ UNCHANGED <<g, fin, comps>>
Root(v) == /\ stack = <<>> /\ v \in V(g) \ s.seen
           /\ Report(v, v, 1) /\ Enter(v, v)
Child(w) ==
    /\ stack # <<>>
    /\ LET k == Len(stack) 
           p == stack[k].v IN
       /\ w \in stack[k].rem
       /\ IF w \in s.seen
          THEN /\ Report(p, w, 0) /\ stack' = [stack EXCEPT ![k].rem = @ \ {w}]
               /\ low' = Lower(low, p, low[w])
               /\ UNCHANGED <<g, fin, num, act, actlen, comps>>
          ELSE /\ Report(p, w, 1)
               /\ LET a == act IN
                  /\ stack' = Append([stack EXCEPT ![k].rem = @ \ {w}], [v |-> w, rem |-> g[w]])
                  /\ num' = Put(num, w, Cardinality(DOMAIN num)) /\ low' = Put(low, w, Cardinality(DOMAIN num))
                  /\ actlen' = Put(actlen, w, Len(act)) /\ act' = Append(act, w)
               /\ UNCHANGED <<g, fin, comps>>
Return ==
    /\ stack # <<>>
    /\ LET k == Len(stack)
           c == stack[k].v
           p == IF k = 1 THEN c ELSE stack[k - 1].v IN
       /\ stack[k].rem = {}
       /\ Report(p, c, -1) /\ stack' = SubSeq(stack, 1, k - 1)
       /\ fin' = Append(fin, c)
       /\ IF low[c] = num[c]
          THEN LET C == {act[i] : i \in (actlen[c] + 1)..Len(act)} IN
               /\ comps' = comps \cup {C}
               /\ low' = [x \in DOMAIN low |-> IF x \in C THEN Big ELSE low[x]]
               /\ act' = SubSeq(act, 1, actlen[c])
          ELSE low' = Lower(low, p, low[c]) /\ UNCHANGED <<comps, act>>
       /\ UNCHANGED <<g, num, actlen>>
Next == Return \/ \E v \in V(g) : Root(v) \/ Child(v)
Spec == Init /\ [][Next]_vars
Ended == stack = <<>> /\ s.seen = V(g)
Complete == Ended => DFSDone(s, g, 0) = {}
\* no arc leads from a finished vertex to one finished later, unless back to an open ancestor at the time
Nested == Ended => \A a \in Arcs(g) :
    LET i == CHOOSE i \in 1..N : fin[i] = a[1]
        j == CHOOSE j \in 1..N : fin[j] = a[2] IN
    i < j => a[1] \in Reach(g, a[2])
Strong == Ended => comps = {{w \in Reach(g, v) : v \in Reach(g, w)} : v \in V(g)}
Topological == Ended /\ Acyclic(g) => \A a \in Arcs(g) :
    (CHOOSE i \in 1..N : fin[i] = a[1]) > (CHOOSE j \in 1..N : fin[j] = a[2])
=============================================================================

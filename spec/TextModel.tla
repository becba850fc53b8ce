------------------------------ MODULE TextModel ------------------------------
(***************************************************************************)
(* Writers for the two packed formats, as machines that emit one unit at a *)
(* time, on every graph with at most N vertices.  The graph6 writer emits  *)
(* the upper triangle; the sparse6 writer may visit the edges of a vertex  *)
(* in any order and repeat an edge, and pads with ones, with a zero first  *)
(* in the case where ones alone would be read as a loop.  Whatever the     *)
(* choices, the decoders give back the graph.                              *)
(***************************************************************************)
EXTENDS GraphText, Json, IOUtils
CONSTANTS N, Repeat
VARIABLES n, edges, cur, left, out, rep, fin    \* edges: pairs <<x, v>> with x < v
vars == <<n, edges, cur, left, out, rep, fin>>
Pairs(m) == {p \in (0..(m - 1)) \X (0..(m - 1)) : p[1] < p[2]}
Init == /\ n \in 0..N /\ edges \in SUBSET Pairs(n) /\ left = edges /\ cur = 0 /\ out = <<>> /\ rep = Repeat /\ fin = FALSE
K == WidthOf(n)
InBits(x) == [i \in 1..K |-> (x \div Pow(K - i)) % 2]
Now == {p \in left : p[2] = cur}
\* an edge at the current vertex (repeated ones stay)
Emit1 == \E p \in Now : /\ out' = out \o <<0>> \o InBits(p[1])
                        /\ \/ left' = left \ {p} /\ rep' = rep
                           \/ rep > 0 /\ rep' = rep - 1 /\ left' = left
                        /\ UNCHANGED <<n, edges, cur, fin>>
\* move on: by one together with the edge, or by a jump
Move == /\ Now = {} /\ left # {}
        /\ LET v == Min({p[2] : p \in left}) IN
           \/ v = cur + 1 /\ \E p \in {q \in left : q[2] = v} :
                  out' = out \o <<1>> \o InBits(p[1]) /\ cur' = v /\ left' = left \ {p}
           \/ \E f \in {0, 1} : v > cur + f /\ out' = out \o <<f>> \o InBits(v) /\ cur' = v /\ left' = left
        /\ UNCHANGED <<n, edges, rep, fin>>
Pad == /\ left = {} /\ ~fin /\ fin' = TRUE
       /\ LET gap == (6 - (Len(out) % 6)) % 6
              zero == gap > K /\ n = Pow(K) /\ cur = n - 2
              tail == [i \in 1..gap |-> IF zero /\ i = 1 THEN 0 ELSE 1] IN
          out' = out \o tail
       /\ UNCHANGED <<n, edges, cur, left, rep>>
Next == Emit1 \/ Move \/ Pad
Spec == Init /\ [][Next]_vars
Pack(b) == [i \in 1..(Len(b) \div 6) |-> Num(b, 6 * (i - 1) + 1, 6)]
S6 == <<n>> \o Pack(out)
Six == LET need == (n * (n - 1)) \div 2
           len == 6 * ((need + 5) \div 6)
           pr == {q \in Pairs(n) : q \in edges}
           b == [i \in 1..len |-> IF \E q \in pr : (q[2] * (q[2] - 1)) \div 2 + q[1] + 1 = i THEN 1 ELSE 0] IN
       <<n>> \o Pack(b)
Want == [ok |-> TRUE, v |-> IntVs(n), e |-> {{Nm(p[1]), Nm(p[2])} : p \in edges}]
Sparse == fin => Sparse6(S6) = Want
Dense == (out = <<>> /\ left = edges) => Graph6(Six) = Want
Show == IF IOEnv.EMIT = "1" /\ fin THEN PrintT("GEN " \o ToJson([s |-> S6, d |-> Six])) ELSE TRUE
=============================================================================

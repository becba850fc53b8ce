------------------------------ MODULE GraphText ------------------------------
(***************************************************************************)
(* Text encodings of undirected graphs.  Each format has a decoder from an *)
(* abstract document (numbers or words, before rendering as text) to       *)
(* [ok, v, e]: whether the document is well formed, the vertex names and   *)
(* the edges as two-element sets of names.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

XClause(name, ok) == IF ok THEN {} ELSE {name}
Bad == [ok |-> FALSE, v |-> {}, e |-> {}]
Nm(i) == "i" \o ToString(i)                       \* integer vertex
Wd(w) == "s" \o w                                 \* string vertex
Pow(k) == IF k = 0 THEN 1 ELSE FoldLeft(LAMBDA a, x : 2 * a, 1, [i \in 1..k |-> i])
Bits(d) == [i \in 1..6 |-> (d \div Pow(6 - i)) % 2]
AllBits(data) == [i \in 1..(6 * Len(data)) |-> Bits(data[(i - 1) \div 6 + 1])[((i - 1) % 6) + 1]]
\* number of vertices and the data after it; n = -1 when cut short
SizeOf(data) == IF Len(data) = 0 THEN [n |-> -1, d |-> <<>>]
    ELSE IF data[1] <= 62 THEN [n |-> data[1], d |-> Tail(data)]
    ELSE IF Len(data) < 4 THEN [n |-> -1, d |-> <<>>]
    ELSE [n |-> data[2] * 4096 + data[3] * 64 + data[4], d |-> SubSeq(data, 5, Len(data))]
IntVs(n) == {Nm(i) : i \in 0..(n - 1)}

\* upper triangle column by column
Graph6(data) ==
    LET h == SizeOf(data)  n == h.n  need == (n * (n - 1)) \div 2 IN
    IF n < 0 THEN Bad ELSE IF Len(h.d) # (need + 5) \div 6 THEN Bad
    ELSE LET b == AllBits(h.d)
             at(i, j) == (j * (j - 1)) \div 2 + i + 1 IN
         [ok |-> TRUE, v |-> IntVs(n),
          e |-> {{Nm(p[1]), Nm(p[2])} : p \in {p \in (0..(n - 1)) \X (0..(n - 1)) : p[1] < p[2] /\ b[at(p[1], p[2])] = 1}}]

\* bits needed for n - 1, at least one
WidthOf(n) == Max({1} \cup {k \in 1..20 : Pow(k - 1) <= n - 1})
Num(b, from, k) == FoldLeft(LAMBDA a, i : 2 * a + b[from + i - 1], 0, [i \in 1..k |-> i])
\* units of one flag bit and a number: the flag moves to the next vertex, a number above the
\* current vertex jumps to it, any other number is an edge; past the last vertex all is padding
Sparse6(data) ==
    LET h == SizeOf(data)  n == h.n IN
    IF n < 0 THEN Bad
    ELSE LET k == WidthOf(n)
             b == AllBits(h.d)
             units == Len(b) \div (k + 1)
             step(s, i) ==
                LET f == b[(i - 1) * (k + 1) + 1]
                    x == Num(b, (i - 1) * (k + 1) + 2, k)
                    v == s.cur + f IN
                IF s.stop THEN s
                ELSE IF x >= n \/ v >= n THEN [s EXCEPT !.stop = TRUE]
                ELSE IF x > v THEN [s EXCEPT !.cur = x]
                ELSE IF x = v THEN [s EXCEPT !.ok = FALSE, !.cur = v]      \* loops are refused
                ELSE [s EXCEPT !.cur = v, !.e = @ \cup {{Nm(x), Nm(v)}}]
             r == FoldLeft(step, [cur |-> 0, stop |-> FALSE, ok |-> TRUE, e |-> {}], [i \in 1..units |-> i]) IN
         IF r.ok THEN [ok |-> TRUE, v |-> IntVs(n), e |-> r.e] ELSE Bad

\* vertex lines starting 1, 2, ..., then edge lines <number> 0 <u> <v>; words that are not numbers are -1
Malf(nodes, edges) ==
    LET n == Len(nodes) IN
    IF /\ \A i \in 1..n : nodes[i] = i
       /\ \A i \in 1..Len(edges) : /\ Len(edges[i]) = 4 /\ edges[i][1] = i /\ edges[i][2] = 0
                                   /\ edges[i][3] \in 1..n /\ edges[i][4] \in 1..n /\ edges[i][3] # edges[i][4]
    THEN [ok |-> TRUE, v |-> {Nm(i) : i \in 1..n}, e |-> {{Nm(x[3]), Nm(x[4])} : x \in ToSet(edges)}]
    ELSE Bad

EdgeList(lines) ==
    IF \A w \in ToSet(lines) : (Len(w) = 2 \/ (Len(w) = 3 /\ w[2] = "-")) /\ w[1] # w[Len(w)]
    THEN [ok |-> TRUE, v |-> UNION {{Wd(w[1]), Wd(w[Len(w)])} : w \in ToSet(lines)},
          e |-> {{Wd(w[1]), Wd(w[Len(w)])} : w \in ToSet(lines)}]
    ELSE Bad

\* lines <<"h", section>> or <<"w", name>>; sections of one name per line; edges are two lines, named edges three
NodeEdge(lines) ==
    LET step(s, l) ==
            LET w == l[2] IN
            IF ~s.ok THEN s
            ELSE IF l[1] = "h"
            THEN (IF s.part # <<>> \/ w \notin {"nodes", "edges", "named edges"} THEN [s EXCEPT !.ok = FALSE] ELSE [s EXCEPT !.mode = w])
            ELSE CASE s.mode = "" -> [s EXCEPT !.ok = FALSE]
                   [] s.mode = "nodes" -> IF Wd(w) \in s.v THEN [s EXCEPT !.ok = FALSE] ELSE [s EXCEPT !.v = @ \cup {Wd(w)}]
                   [] OTHER ->
                        LET p == Append(s.part, w)
                            full == IF s.mode = "edges" THEN 2 ELSE 3
                            a == p[Len(p) - 1]
                            z == p[Len(p)] IN
                        IF Len(p) < full THEN [s EXCEPT !.part = p]
                        ELSE IF a = z \/ Wd(a) \notin s.v \/ Wd(z) \notin s.v \/ (full = 3 /\ p[1] \in s.names) THEN [s EXCEPT !.ok = FALSE]
                        ELSE [s EXCEPT !.part = <<>>, !.e = @ \cup {{Wd(a), Wd(z)}},
                                       !.names = @ \cup (IF full = 3 THEN {p[1]} ELSE {})]
        r == FoldLeft(step, [ok |-> TRUE, mode |-> "", part |-> <<>>, v |-> {}, e |-> {}, names |-> {}], lines) IN
    IF r.ok /\ r.part = <<>> THEN [ok |-> TRUE, v |-> r.v, e |-> r.e] ELSE Bad

\* elements in document order: <<"node", id>> and <<"edge", source, target, directed>>, "" when absent
GraphML(default, els) ==
    LET step(s, x) ==
            IF ~s.ok THEN s
            ELSE IF x[1] = "node"
            THEN (IF x[2] = "" \/ Wd(x[2]) \in s.v THEN [s EXCEPT !.ok = FALSE] ELSE [s EXCEPT !.v = @ \cup {Wd(x[2])}])
            ELSE IF x[2] = "" \/ x[3] = "" \/ x[2] = x[3] \/ Wd(x[2]) \notin s.v \/ Wd(x[3]) \notin s.v
                    \/ ~(x[4] = "false" \/ (x[4] = "" /\ default = "undirected"))
            THEN [s EXCEPT !.ok = FALSE]
            ELSE [s EXCEPT !.e = @ \cup {{Wd(x[2]), Wd(x[3])}}]
        r == FoldLeft(step, [ok |-> default # "", v |-> {}, e |-> {}], els) IN
    IF r.ok THEN [ok |-> TRUE, v |-> r.v, e |-> r.e] ELSE Bad

\* every undirected edge as two arcs <<source, target, number of the reverse arc>>
Leda(n, arcs) ==
    IF \A i \in 1..Len(arcs) : LET a == arcs[i] IN
          /\ a[1] \in 1..n /\ a[2] \in 1..n /\ a[1] # a[2] /\ a[3] \in 1..Len(arcs)
          /\ arcs[a[3]][1] = a[2] /\ arcs[a[3]][2] = a[1]
    THEN [ok |-> TRUE, v |-> {Nm(i) : i \in 1..n}, e |-> {{Nm(a[1]), Nm(a[2])} : a \in ToSet(arcs)}]
    ELSE Bad

Decode(d) == CASE d.fmt = "graph6" -> Graph6(d.data)
               [] d.fmt = "sparse6" -> Sparse6(d.data)
               [] d.fmt = "malf" -> Malf(d.nodes, d.edges)
               [] d.fmt = "edges" -> EdgeList(d.lines)
               [] d.fmt = "nodeedge" -> NodeEdge(d.lines)
               [] d.fmt = "graphml" -> GraphML(d.default, d.els)
               [] d.fmt = "junk" -> Bad
               [] d.fmt = "leda" -> Leda(d.n, d.arcs)

\* rows <<vertex, <<neighbour, edge id>>...>>
GTFails(st, e) ==
    CASE e.op = "graph" ->
            LET rows == ToSet(e.r)
                vs == {r[1] : r \in rows}
                arcs == UNION {{<<r[1], x[1], x[2]>> : x \in ToSet(r[2])} : r \in rows} IN
            IF ~st.ok THEN {"malformed text is refused"}
            ELSE XClause("vertices", Len(e.r) = Cardinality(st.v) /\ vs = st.v) \cup
                 XClause("edges", {{a[1], a[2]} : a \in arcs} = st.e) \cup
                 XClause("each edge seen from both ends with one id", \A a \in arcs : <<a[2], a[1], a[3]>> \in arcs) \cup
                 XClause("different edges have different ids",
                         Cardinality({a[3] : a \in arcs}) = Cardinality(st.e) /\ Cardinality(arcs) = 2 * Cardinality(st.e))
      [] e.op = "refused" -> XClause("well-formed text is accepted", ~st.ok)
      [] e.op = "raised" -> {"unexpected " \o e.exc}
      [] OTHER -> {"unknown event"}
GTApply(st, e) == st
=============================================================================

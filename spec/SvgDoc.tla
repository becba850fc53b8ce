------------------------------- MODULE SvgDoc -------------------------------
(***************************************************************************)
(* The SVG writer as a state machine: each call appends the markup tokens  *)
(* it must produce and pushes or pops open elements.  Numbers are in units *)
(* of 1/10000.  An attribute is [n |-> name, t |-> template with # for     *)
(* each number, v |-> numbers]; s is the set of style <<keyword, value>>.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SVClause(name, ok) == IF ok THEN {} ELSE {name}

A(n, x) == [n |-> n, t |-> "#", v |-> <<x>>]
Op(n, as, s) == [k |-> "open", n |-> n, a |-> as, s |-> s, x |-> ""]
Cl2(n) == [k |-> "close", n |-> n, a |-> {}, s |-> {}, x |-> ""]
Tx(x) == [k |-> "text", n |-> "", a |-> {}, s |-> {}, x |-> x]
Min2(a, b) == IF a < b THEN a ELSE b
Abs2(a) == IF a < 0 THEN -a ELSE a

\* keyword arguments take priority over the style dictionary
Style(e) == {p \in ToSet(e.style) : \A q \in ToSet(e.more) : q[1] # p[1]} \cup ToSet(e.more)

RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 1 THEN s ELSE s \o " " \o Rep(s, n - 1)

Elem(n, as, e) == <<Op(n, as, Style(e)), Cl2(n)>>

\* markup for one call, given the names of the open elements
SVMarkup(st, e) ==
    CASE e.op = "group" -> <<Op("g", {}, Style(e))>>
      [] e.op = "open" -> <<Op(e.name, ToSet(e.attrs), Style(e))>>
      [] e.op = "ungroup" -> <<Cl2("g")>>
      [] e.op = "shut" -> <<Cl2(e.name)>>
      [] e.op = "circle" -> Elem("circle", {A("cx", e.p[1]), A("cy", e.p[2]), A("r", e.rad)}, e)
      [] e.op = "rectangle" -> Elem("rect", {A("x", Min2(e.p[1], e.q[1])), A("y", Min2(e.p[2], e.q[2])),
                                             A("width", Abs2(e.p[1] - e.q[1])), A("height", Abs2(e.p[2] - e.q[2]))}, e)
      [] e.op = "segment" -> Elem("line", {A("x1", e.p[1]), A("y1", e.p[2]), A("x2", e.q[1]), A("y2", e.q[2])}, e)
      [] e.op = "polygon" -> Elem("polygon", {[n |-> "points", t |-> Rep("#", 2 * Len(e.ps)),
                                               v |-> FlattenSeq(e.ps)]}, e)
      [] e.op = "arc" -> Elem("path", {[n |-> "d", t |-> "M # # A # # # # # # #",
                                        v |-> <<e.p[1], e.p[2], Abs2(e.rad), Abs2(e.rad), 0,
                                                IF e.large THEN 10000 ELSE 0, 0, e.q[1], e.q[2]>>]}, e)
      [] e.op = "text" -> <<Op("text", {A("x", e.p[1]), A("y", e.p[2])}, Style(e)), Tx(e.label), Cl2("text")>>
      [] e.op = "leaf" -> Elem(e.name, ToSet(e.attrs), e)

SVClose(a, b, tol) == a.n = b.n /\ a.t = b.t /\ Len(a.v) = Len(b.v)
                      /\ \A i \in 1..Len(a.v) : a.v[i] - b.v[i] \in -tol..tol
SVSame(want, got, tol) ==
    /\ want.k = got.k /\ want.n = got.n /\ want.x = got.x
    /\ want.s = ToSet(got.s) /\ Cardinality(want.s) = Len(got.s)
    /\ Cardinality(want.a) = Len(got.a)
    /\ \A a \in want.a : \E i \in 1..Len(got.a) : SVClose(a, got.a[i], tol)

\* nesting discipline of a token sequence, independent of what was asked for
SVStep(stack, tk) ==
    IF stack = <<"bad">> THEN stack
    ELSE IF tk.k = "open" THEN Append(stack, tk.n)
    ELSE IF tk.k = "close"
    THEN IF stack # <<>> /\ Last(stack) = tk.n THEN Front(stack) ELSE <<"bad">>
    ELSE stack
SVNested(ts) == FoldLeft(SVStep, <<>>, ts) = <<>>

SVFails(st, e) ==
    CASE e.op = "raised" -> {"a drawing call raised " \o e.exc}
      [] e.op = "close" ->
           IF st.open = <<>> THEN SVClause("closing with every group closed is accepted", e.exc = "")
           ELSE SVClause("closing with an unclosed group is refused", e.exc # "")
      [] e.op = "doc" ->
           LET g == e.toks IN
           SVClause("only well-formed markup is written", e.junk = "")
           \cup SVClause("declaration exactly when standalone", e.decl = st.decl)
           \cup (IF Len(g) < 2 THEN {"the document has a root element"} ELSE
                 SVClause("markup is properly nested", SVNested(g))
                 \cup SVClause("the root has the given size",
                        /\ g[1].k = "open" /\ g[1].n = "svg"
                        /\ \A a \in st.root : \E i \in 1..Len(g[1].a) : SVClose(a, g[1].a[i], st.tol))
                 \cup SVClause("one element per call, in order, with what the call gave",
                        /\ Len(g) = Len(st.want) + 2
                        /\ \A i \in 1..Len(st.want) : SVSame(st.want[i], g[i + 1], st.tol)))
      [] OTHER -> {}

SVApply(st, e) ==
    IF e.op \in {"close", "doc", "raised"} THEN st
    ELSE [st EXCEPT !.want = @ \o SVMarkup(st, e),
                    !.open = IF e.op = "group" THEN Append(@, "g")
                             ELSE IF e.op = "open" THEN Append(@, e.name)
                             ELSE IF e.op \in {"ungroup", "shut"} THEN Front(@) ELSE @]
=============================================================================

-------------------------------- MODULE DFS --------------------------------
(***************************************************************************)
(* Depth-first search as a machine over the reported triples.              *)
(* s.stack  vertices being explored;  s.seen  visited vertices             *)
(* s.rem    arcs not yet reported, per source;  s.roots  roots so far      *)
(***************************************************************************)
EXTENDS Graphs
DFSInit(g) == [stack |-> <<>>, seen |-> {}, rem |-> g, roots |-> <<>>]
DTop(s) == s.stack[Len(s.stack)]

\* t: 1 down a tree arc, -1 back up it, 0 any other arc
DFSFails(s, v, w, t) ==
    LET k == Len(s.stack) IN
    CASE t = 1 /\ v = w ->
           GClause("a root is reported only between trees", k = 0)
           \cup GClause("a vertex is visited once", v \in V(s.rem) \ s.seen)
      [] t = 1 /\ v # w ->
           GClause("tree arcs leave the vertex being explored", k > 0 /\ (k > 0 => DTop(s) = v))
           \cup GClause("an arc is reported once and exists", v \in V(s.rem) /\ (v \in V(s.rem) => w \in s.rem[v]))
           \cup GClause("a vertex is visited once", w \notin s.seen)
      [] t = 0 ->
           GClause("other arcs are reported at the vertex being explored", k > 0 /\ (k > 0 => DTop(s) = v))
           \cup GClause("an arc is reported once and exists", v \in V(s.rem) /\ (v \in V(s.rem) => w \in s.rem[v]))
           \cup GClause("arcs outside the forest lead to visited vertices", w \in s.seen)
      [] t = -1 ->
           GClause("returns are nested", k > 0 /\ (k > 0 => DTop(s) = w /\ v = IF k = 1 THEN w ELSE s.stack[k - 1]))
           \cup GClause("a vertex is left after all its arcs", w \in V(s.rem) /\ (w \in V(s.rem) => s.rem[w] = {}))
      [] OTHER -> {"unknown kind of arc"}
DFSApply(s, v, w, t) ==
    CASE t = 1 /\ v = w -> [s EXCEPT !.stack = <<v>>, !.seen = @ \cup {v}, !.roots = Append(@, v)]
      [] t = 1 /\ v # w -> [s EXCEPT !.stack = Append(@, w), !.seen = @ \cup {w}, !.rem[v] = @ \ {w}]
      [] t = 0 -> [s EXCEPT !.rem[v] = @ \ {w}]
      [] t = -1 -> [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]

\* start = 0: whole graph
DFSDone(s, g, start) ==
    GClause("the search ends with every tree closed", s.stack = <<>>)
    \cup GClause("the search covers what it must", s.seen = IF start = 0 THEN V(g) ELSE Reach(g, start))
    \cup GClause("a given start is the only root", start # 0 => s.roots = <<start>>)

-----------------------------------------------------------------------------
(* Recorded behaviour.  st.s machine, st.ev triples so far.                *)
DFFails(st, e) ==
    CASE e.op = "arc" -> DFSFails(st.s, e.v, e.w, e.t)
      [] e.op = "done" -> DFSDone(st.s, st.g, st.start)
      [] e.op = "again" -> {}      \* the searcher class starts: same machine from the beginning
      [] e.op = "pre" -> GClause("preorder lists the vertices as first visited",
             e.r = SelectSeq([i \in 1..Len(st.ev) |-> IF st.ev[i].t = 1 THEN st.ev[i].w ELSE 0], LAMBDA x : x # 0))
      [] e.op = "post" -> GClause("postorder lists the vertices as last left",
             e.r = SelectSeq([i \in 1..Len(st.ev) |-> IF st.ev[i].t = -1 THEN st.ev[i].w ELSE 0], LAMBDA x : x # 0))
      [] e.op = "reach" -> GClause("reachability is path existence", e.r = (e.w \in Reach(st.g, e.v)))
      [] e.op = "raised" -> {"raised " \o e.exc}
DFApply(st, e) ==
    CASE e.op = "arc" -> [st EXCEPT !.s = DFSApply(@, e.v, e.w, e.t), !.ev = Append(@, e)]
      [] e.op = "again" -> [st EXCEPT !.s = DFSInit(st.g), !.start = 0]
      [] OTHER -> st
=============================================================================

----------------------------- MODULE RegexModel -----------------------------
(***************************************************************************)
(* Every expression tree of at most Size leaves over two symbols: the two  *)
(* meanings (derivatives, position automaton) agree on all short strings,  *)
(* and printing followed by reading gives the same language.  Emits the    *)
(* printed expressions.  (Parenthesisation is minimal here; the recorder   *)
(* adds redundant parentheses and escapes.)                                *)
(***************************************************************************)
EXTENDS Automata, TLC, Json, IOUtils
CONSTANTS Size
VARIABLE e
Al == <<"a", "b">>

RECURSIVE Trees(_)
Base(n) == IF n = 1 THEN {Eps, Sym("a"), Sym("b")} ELSE
           UNION {{Cat(x, y) : x \in Trees(i), y \in Trees(n - i)} : i \in 1..(n - 1)}
           \cup UNION {{Alt(x, y) : x \in Trees(i), y \in Trees(n - i)} : i \in 1..(n - 1)}
Trees(n) == LET b == Base(n) IN b \cup {Star(x) : x \in b \ {Eps}}

RECURSIVE Show(_, _)     \* context: 0 alternative, 1 concatenation, 2 starred
Wrap(s) == <<"(">> \o s \o <<")">>
Show(x, c) ==
    CASE x.k = "eps" -> <<"(", ")">>
      [] x.k = "sym" -> <<x.c>>
      [] x.k = "alt" -> LET s == Show(x.l, 0) \o <<"+">> \o Show(x.r, 0) IN IF c > 0 THEN Wrap(s) ELSE s
      [] x.k = "cat" -> LET s == Show(x.l, 1) \o Show(x.r, 1) IN IF c > 1 THEN Wrap(s) ELSE s
      [] x.k = "star" -> Show(x.e, 2) \o <<"*">>

Words == UNION {[1..m -> {"a", "b"}] : m \in 0..3}
Code(w) == [i \in 1..Len(w) |-> IF w[i] = "a" THEN 1 ELSE 2]
Init == e \in UNION {Trees(n) : n \in 1..Size}
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson(Show(e, 0))) ELSE TRUE
Spec == Init /\ [][UNCHANGED e]_e
Agree == LET L == Lang(FromExpr(e, Al), 2) IN \A w \in Words : LHas(L, Code(w)) = Denotes(e, w)
RoundTrip == LET p == Parse(Show(e, 0)) IN p # Bad /\ Lang(FromExpr(p, Al), 2) = Lang(FromExpr(e, Al), 2)
=============================================================================

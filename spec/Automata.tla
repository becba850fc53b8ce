------------------------------ MODULE Automata ------------------------------
(***************************************************************************)
(* Regular languages.  Symbols are 1..k.  Three presentations:             *)
(*   expression   syntax tree, read from a sequence of characters          *)
(*   NFA          [n, init, d, final]: states 1..n, d[q][c] a set          *)
(*   language     its canonical minimal DFA [n, d, f]: state 1 is initial, *)
(*                states numbered in breadth-first symbol order, so that   *)
(*                two languages are equal iff these records are equal.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

AUClause(name, ok) == IF ok THEN {} ELSE {name}

-----------------------------------------------------------------------------
(* Reading expressions *)
Eps == [k |-> "eps"]
Bad == [k |-> "bad"]
Sym(c) == [k |-> "sym", c |-> c]
Cat(l, r) == [k |-> "cat", l |-> l, r |-> r]
Alt(l, r) == [k |-> "alt", l |-> l, r |-> r]
Star(e) == [k |-> "star", e |-> e]

RECURSIVE PExpr(_, _), PTerm(_, _), PMore(_, _), PAlts(_, _), PStars(_, _)
Res(n, i) == [n |-> n, i |-> i]
PBase(s, i) ==
    IF i > Len(s) \/ s[i] = ")" THEN Res(Eps, i)
    ELSE IF s[i] = "("
    THEN LET e == PExpr(s, i + 1) IN
         IF e.i <= Len(s) /\ s[e.i] = ")" THEN Res(e.n, e.i + 1) ELSE Res(Bad, Len(s) + 1)
    ELSE IF s[i] = "\\" THEN IF i = Len(s) THEN Res(Bad, i + 1) ELSE Res(Sym(s[i + 1]), i + 2)
    ELSE IF s[i] \in {"+", "*"} THEN Res(Bad, Len(s) + 1)
    ELSE Res(Sym(s[i]), i + 1)
PStars(r, s) == IF r.i <= Len(s) /\ s[r.i] = "*" THEN PStars(Res(Star(r.n), r.i + 1), s) ELSE r
PFactor(s, i) == PStars(PBase(s, i), s)
PMore(r, s) == IF r.i <= Len(s) /\ s[r.i] \notin {")", "+"}
               THEN LET f == PFactor(s, r.i) IN PMore(Res(Cat(r.n, f.n), f.i), s) ELSE r
PTerm(s, i) == PMore(PFactor(s, i), s)
PAlts(r, s) == IF r.i <= Len(s) /\ s[r.i] = "+"
               THEN LET t == PTerm(s, r.i + 1) IN PAlts(Res(Alt(r.n, t.n), t.i), s) ELSE r
PExpr(s, i) == PAlts(PTerm(s, i), s)

RECURSIVE Sound(_)
Sound(e) == CASE e.k \in {"eps", "sym"} -> TRUE
              [] e.k = "bad" -> FALSE
              [] e.k \in {"cat", "alt"} -> Sound(e.l) /\ Sound(e.r)
              [] e.k = "star" -> Sound(e.e)
Parse(s) == LET r == PExpr(s, 1) IN IF r.i = Len(s) + 1 /\ Sound(r.n) THEN r.n ELSE Bad
\* Text no reading makes sense of, seen by a scan: a parenthesis without its partner, or nothing to escape
Broken(s) ==
    LET z == FoldLeft(LAMBDA a, c : IF a.esc THEN [a EXCEPT !.esc = FALSE]
                                    ELSE CASE c = "\\" -> [a EXCEPT !.esc = TRUE]
                                           [] c = "(" -> [a EXCEPT !.open = @ + 1]
                                           [] c = ")" -> [a EXCEPT !.open = @ - 1, !.bad = @ \/ a.open = 0]
                                           [] OTHER -> a,
                      [esc |-> FALSE, open |-> 0, bad |-> FALSE], s)
    IN  z.esc \/ z.bad \/ z.open # 0
RECURSIVE Symbols(_)
Symbols(e) == CASE e.k \in {"eps", "bad"} -> {}
                [] e.k = "sym" -> {e.c}
                [] e.k \in {"cat", "alt"} -> Symbols(e.l) \cup Symbols(e.r)
                [] e.k = "star" -> Symbols(e.e)

(* Meaning 1: derivatives *)
RECURSIVE Nullable(_), Deriv(_, _)
Nullable(e) == CASE e.k = "eps" -> TRUE
                 [] e.k \in {"sym", "bad"} -> FALSE
                 [] e.k = "cat" -> Nullable(e.l) /\ Nullable(e.r)
                 [] e.k = "alt" -> Nullable(e.l) \/ Nullable(e.r)
                 [] e.k = "star" -> TRUE
Deriv(e, c) == CASE e.k \in {"eps", "bad"} -> Bad     \* Bad doubles as the empty language
                 [] e.k = "sym" -> IF e.c = c THEN Eps ELSE Bad
                 [] e.k = "cat" -> LET a == Cat(Deriv(e.l, c), e.r)
                                   IN  IF Nullable(e.l) THEN Alt(a, Deriv(e.r, c)) ELSE a
                 [] e.k = "alt" -> Alt(Deriv(e.l, c), Deriv(e.r, c))
                 [] e.k = "star" -> Cat(Deriv(e.e, c), e)
Denotes(e, w) == Nullable(FoldLeft(Deriv, e, w))

(* Meaning 2: position automaton *)
RECURSIVE Pos(_, _)
Pos(e, o) ==     \* positions numbered from o+1
    CASE e.k = "eps" -> [n |-> 0, nul |-> TRUE, fst |-> {}, lst |-> {}, fol |-> {}, sy |-> <<>>]
      [] e.k = "sym" -> [n |-> 1, nul |-> FALSE, fst |-> {o + 1}, lst |-> {o + 1}, fol |-> {}, sy |-> <<e.c>>]
      [] e.k = "alt" -> LET a == Pos(e.l, o) b == Pos(e.r, o + a.n) IN
           [n |-> a.n + b.n, nul |-> a.nul \/ b.nul, fst |-> a.fst \cup b.fst, lst |-> a.lst \cup b.lst,
            fol |-> a.fol \cup b.fol, sy |-> a.sy \o b.sy]
      [] e.k = "cat" -> LET a == Pos(e.l, o) b == Pos(e.r, o + a.n) IN
           [n |-> a.n + b.n, nul |-> a.nul /\ b.nul,
            fst |-> IF a.nul THEN a.fst \cup b.fst ELSE a.fst,
            lst |-> IF b.nul THEN a.lst \cup b.lst ELSE b.lst,
            fol |-> a.fol \cup b.fol \cup (a.lst \X b.fst), sy |-> a.sy \o b.sy]
      [] e.k = "star" -> LET a == Pos(e.e, o) IN
           [n |-> a.n, nul |-> TRUE, fst |-> a.fst, lst |-> a.lst,
            fol |-> a.fol \cup (a.lst \X a.fst), sy |-> a.sy]
\* alpha: sequence of the k symbols
FromExpr(e, alpha) ==
    LET g == Pos(e, 0) IN
    [n |-> g.n + 1, init |-> {g.n + 1},
     final |-> g.lst \cup (IF g.nul THEN {g.n + 1} ELSE {}),
     d |-> [q \in 1..(g.n + 1) |-> [c \in 1..Len(alpha) |->
              {p \in 1..g.n : g.sy[p] = alpha[c] /\
                  (IF q = g.n + 1 THEN p \in g.fst ELSE <<q, p>> \in g.fol)}]]]

\* an automaton recorded as nested lists
FromTable(t) == [n |-> t.n, init |-> ToSet(t.init), final |-> ToSet(t.final),
                 d |-> [q \in 1..t.n |-> [c \in 1..Len(t.d[q]) |-> ToSet(t.d[q][c])]]]

-----------------------------------------------------------------------------
(* Canonical form *)
Move(a, S, c) == UNION {a.d[q][c] : q \in S}
RECURSIVE Subsets(_, _, _, _)
Subsets(a, k, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET nx == {Move(a, S, c) : S \in todo, c \in 1..k} \ seen
         IN  Subsets(a, k, nx, seen \cup nx)

\* any complete DFA given by state set Q, initial state, transition function and final states
RECURSIVE Stable(_, _, _, _)
Stable(Q, k, T, cls) ==
    LET nx == [q \in Q |-> {p \in cls[q] : \A c \in 1..k : cls[T[p][c]] = cls[T[q][c]]}]
    IN  IF nx = cls THEN cls ELSE Stable(Q, k, T, nx)
RECURSIVE Number(_, _, _, _)
Number(ord, i, k, TB) ==
    IF i > Len(ord) THEN ord
    ELSE Number(FoldLeft(LAMBDA o, c : LET b == TB[ord[i]][c] IN IF \E j \in 1..Len(o) : o[j] = b THEN o ELSE Append(o, b),
                         ord, [c \in 1..k |-> c]), i + 1, k, TB)
Canon(Q, k, q0, T, F) ==
    LET cls == Stable(Q, k, T, [q \in Q |-> IF q \in F THEN Q \cap F ELSE Q \ F])
        B == {cls[q] : q \in Q}
        TB == [b \in B |-> [c \in 1..k |-> cls[T[CHOOSE q \in b : TRUE][c]]]]
        ord == Number(<<cls[q0]>>, 1, k, TB)
        num == [b \in ToSet(ord) |-> CHOOSE i \in 1..Len(ord) : ord[i] = b]
    IN  [n |-> Len(ord), d |-> [i \in 1..Len(ord) |-> [c \in 1..k |-> num[TB[ord[i]][c]]]],
         f |-> {i \in 1..Len(ord) : ord[i] \subseteq F}]
Lang(a, k) ==
    LET Q == Subsets(a, k, {a.init}, {a.init})
        T == [S \in Q |-> [c \in 1..k |-> Move(a, S, c)]]
    IN  Canon(Q, k, a.init, T, {S \in Q : S \cap a.final # {}})

LNot(A) == [A EXCEPT !.f = (1..A.n) \ @]
Combine(op, x, y) == CASE op = "and" -> x /\ y [] op = "or" -> x \/ y [] op = "xor" -> x # y
\* pairs of states reached by a common word
RECURSIVE Pairs(_, _, _, _, _)
Pairs(A, B, k, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET nx == {<<A.d[q[1]][c], B.d[q[2]][c]>> : q \in todo, c \in 1..k} \ seen
         IN  Pairs(A, B, k, nx, seen \cup nx)
LOp(op, A, B, k) ==
    LET Q == Pairs(A, B, k, {<<1, 1>>}, {<<1, 1>>})
        T == [q \in Q |-> [c \in 1..k |-> <<A.d[q[1]][c], B.d[q[2]][c]>>]]
    IN  Canon(Q, k, <<1, 1>>, T, {q \in Q : Combine(op, q[1] \in A.f, q[2] \in B.f)})
LRev(A, k) ==
    Lang([n |-> A.n, init |-> A.f, final |-> {1},
          d |-> [q \in 1..A.n |-> [c \in 1..k |-> {p \in 1..A.n : A.d[p][c] = q}]]], k)
LRun(A, w) == FoldLeft(LAMBDA q, c : A.d[q][c], 1, w)
LHas(A, w) == LRun(A, w) \in A.f
LEmpty(A) == A.f = {}
LSub(A, B, k) == \A q \in Pairs(A, B, k, {<<1, 1>>}, {<<1, 1>>}) : q[1] \in A.f => q[2] \in B.f

-----------------------------------------------------------------------------
(* Recorded behaviour.  st.L is the sequence of languages built so far.    *)
Truth(k, A, B, kk) ==
    CASE kk = "eq" -> A = B
      [] kk = "ne" -> A # B
      [] kk = "le" -> LSub(A, B, k)
      [] kk = "ge" -> LSub(B, A, k)
      [] kk = "lt" -> LSub(A, B, k) /\ A # B
      [] kk = "gt" -> LSub(B, A, k) /\ A # B

AUFails(st, e) ==
    LET k == Len(st.alpha) IN
    CASE e.op = "re" -> AUClause("recorder sent a well-formed expression", Parse(e.s) # Bad)
                        \cup AUClause("a well-formed expression is accepted", e.exc = "")
      [] e.op = "text" -> AUClause("recorder sent broken text", Broken(e.s))
                          \cup AUClause("text with an unmatched parenthesis or a dangling escape is refused", e.exc # "")
      [] e.op = "mixed" ->     \* operands over different alphabets, or something that is not a language
           AUClause("operands that do not belong together are refused: " \o e.k,
               IF e.k \in {"eq", "ne"} THEN e.exc = "" /\ e.r = (e.k = "ne") ELSE e.exc # "")
      [] e.op \in {"table", "not", "and", "or", "xor", "rev", "copy"} ->
           AUClause("operation on languages raised: " \o e.op, e.exc = "")
      [] e.op = "has" ->
           LET A == st.L[e.a] IN
           IF \E i \in 1..Len(e.w) : e.w[i] = 0
           THEN AUClause("a string with a foreign symbol is never accepted", e.exc # "" \/ ~e.r)
           ELSE AUClause("membership", e.exc = "" /\ e.r = LHas(A, e.w))
      [] e.op = "same" ->
           AUClause("automaton has the language's alphabet", ToSet(e.alpha) = ToSet(st.alpha) \/ ~st.full)
           \cup AUClause("automaton recognizes the language: " \o e.what, Lang(FromTable(e.t), k) = st.L[e.a])
           \cup AUClause("automaton is deterministic: " \o e.what, e.det =>
                    /\ Len(e.t.init) = 1 /\ \A q \in 1..e.t.n : \A c \in 1..k : Len(e.t.d[q][c]) = 1)
      [] e.op = "size" -> AUClause("minimal number of states", e.n = st.L[e.a].n)
      [] e.op = "cmp" -> AUClause("comparison " \o e.k, e.exc = "" /\ e.r = Truth(k, st.L[e.a], st.L[e.b], e.k))
      [] e.op = "bool" -> AUClause("emptiness test", e.exc = "" /\ e.r = ~LEmpty(st.L[e.a]))
      [] e.op = "extract" ->
           IF e.none THEN AUClause("no expression only for the empty language", LEmpty(st.L[e.a]))
           ELSE LET x == Parse(e.s) IN
                AUClause("extracted expression is well formed", x # Bad)
                \cup (IF x = Bad THEN {} ELSE
                      AUClause("extracted expression uses the alphabet", Symbols(x) \subseteq ToSet(st.alpha))
                      \cup AUClause("extracted expression denotes the language",
                              Lang(FromExpr(x, st.alpha), k) = st.L[e.a]))
      [] e.op = "raised" -> {"raised " \o e.exc}

AUApply(st, e) ==
    LET k == Len(st.alpha)
        add(A) == [st EXCEPT !.L = Append(@, A)]
    IN
    CASE e.op = "re" -> add(Lang(FromExpr(Parse(e.s), st.alpha), k))
      [] e.op = "table" -> add(Lang(FromTable(e.t), k))
      [] e.op = "copy" -> add(st.L[e.a])
      [] e.op = "not" -> add(LNot(st.L[e.a]))
      [] e.op \in {"and", "or", "xor"} -> add(LOp(e.op, st.L[e.a], st.L[e.b], k))
      [] e.op = "rev" -> add(LRev(st.L[e.a], k))
      [] OTHER -> st
=============================================================================

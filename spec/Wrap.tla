--------------------------------- MODULE Wrap --------------------------------
(***************************************************************************)
(* Breaking a paragraph into lines.  Text and lines are sequences of code  *)
(* points.  A text is first read as parts: [c: characters, gap: number of  *)
(* spaces to the next part on the same line, 0 inside a hyphenated word].  *)
(* An arrangement is the set of parts that end a line.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

WClause(name, ok) == IF ok THEN {} ELSE {name}
Blank(c) == c \in {9, 10, 11, 12, 13, 32}
Hyphen == 45
Stop == 46
Upper(c) == c \in 65..90
\* the words of a text: maximal runs without blanks
Words(t) ==
    LET f == FoldLeft(LAMBDA a, c : IF Blank(c) THEN [done |-> IF a.w = <<>> THEN a.done ELSE Append(a.done, a.w), w |-> <<>>]
                                    ELSE [a EXCEPT !.w = Append(@, c)], [done |-> <<>>, w |-> <<>>], t) IN
    IF f.w = <<>> THEN f.done ELSE Append(f.done, f.w)
\* after the end of a sentence two spaces, but one after an initial
GapAfter(w, french) == IF ~french /\ Last(w) = Stop /\ (Len(w) > 2 \/ ~Upper(w[1])) THEN 2 ELSE 1
\* parts of a word: cut after every hyphen except a final one
PartsOf(w, french) ==
    LET f == FoldLeft(LAMBDA a, i : IF w[i] = Hyphen /\ i < Len(w)
                                    THEN [done |-> Append(a.done, [c |-> Append(a.c, w[i]), gap |-> 0]), c |-> <<>>]
                                    ELSE [a EXCEPT !.c = Append(@, w[i])],
                      [done |-> <<>>, c |-> <<>>], [i \in 1..Len(w) |-> i]) IN
    Append(f.done, [c |-> f.c, gap |-> GapAfter(w, french)])
Parts(t, french) == FoldLeft(LAMBDA a, w : a \o PartsOf(w, french), <<>>, Words(t))

Spaces(k) == [i \in 1..k |-> 32]
Render(P, i, j) == FoldLeft(LAMBDA a, k : a \o P[k].c \o (IF k < j THEN Spaces(P[k].gap) ELSE <<>>), <<>>, [x \in 1..(j - i + 1) |-> i + x - 1])
\* widths: of a hyphen, of a space, of a capital or far character, of any other one
Plain == [hyphen |-> 1, space |-> 1, wide |-> 1, other |-> 1]
Width(s, how) == FoldLeft(LAMBDA a, c : a + (IF c = Hyphen THEN how.hyphen ELSE IF c = 32 THEN how.space
                                             ELSE IF Upper(c) \/ c > 255 THEN how.wide ELSE how.other), 0, s)
GapWidth(P, k, how) == Width(Spaces(P[k].gap), how)
\* running ends: width of parts 1..k with the gaps between them
Ends(P, how) == FoldLeft(LAMBDA a, k : Append(a, (IF k = 1 THEN 0 ELSE Last(a) + GapWidth(P, k - 1, how)) + Width(P[k].c, how)), <<>>, [x \in 1..Len(P) |-> x])
Square(x) == x * x
\* o: options target, longlast, over, nline, oneword, hyphen;  the line holds parts i..j
LinePenalty(P, E, o, how, i, j) ==
    LET L == E[j] - (IF i = 1 THEN 0 ELSE E[i - 1] + GapWidth(P, i - 1, how)) IN
    o.nline +
    (IF L > o.target THEN o.over * (L - o.target)
     ELSE IF j < Len(P) \/ o.longlast THEN Square(o.target - L)
     ELSE IF i = j THEN o.oneword ELSE 0) +
    (IF P[j].gap = 0 THEN o.hyphen ELSE 0)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* least total, by the last line
BestTo(P, E, o, how) == FoldLeft(LAMBDA a, j : Append(a, MinOf({a[i] + LinePenalty(P, E, o, how, i, j) : i \in 1..j})), <<0>>, [x \in 1..Len(P) |-> x])
Best(P, E, o, how) == Last(BestTo(P, E, o, how))
Total(P, E, o, how, ends) ==     \* ends: increasing sequence of last parts
    FoldLeft(LAMBDA a, k : a + LinePenalty(P, E, o, how, IF k = 1 THEN 1 ELSE ends[k - 1] + 1, ends[k]), 0, [x \in 1..Len(ends) |-> x])

\* read lines back as parts: the sequence of last parts, or <<0>> if they do not match
ReadBack(P, lines) ==
    LET f == FoldLeft(LAMBDA a, line :
                IF ~a.ok THEN a ELSE
                LET i == a.next
                    js == {j \in i..Len(P) : Len(Render(P, i, j)) = Len(line)} IN
                IF js = {} THEN [a EXCEPT !.ok = FALSE]
                ELSE LET j == CHOOSE j \in js : TRUE IN
                     IF Render(P, i, j) = line THEN [ok |-> TRUE, next |-> j + 1, ends |-> Append(a.ends, j)] ELSE [a EXCEPT !.ok = FALSE],
                [ok |-> TRUE, next |-> 1, ends |-> <<>>], lines) IN
    IF f.ok /\ f.next = Len(P) + 1 THEN f.ends ELSE <<0>>
\* the letters in order, blanks and line ends aside
Letters(s) == SelectSeq(s, LAMBDA c : ~Blank(c))
Joined(lines) == FoldLeft(LAMBDA a, l : a \o l, <<>>, lines)

WApply(st, e) == st
WFails(st, e) ==
    CASE e.op = "wrap" ->
            LET P == Parts(e.text, e.french)
                E == Ends(P, e.how)
                ends == ReadBack(P, e.r) IN
            WClause("same words in order", Letters(Joined(e.r)) = Letters(e.text)) \cup
            WClause("breaks and spaces only where allowed", ends # <<0>>) \cup
            WClause("least total penalty", IF ends # <<0>> THEN Total(P, E, e.o, e.how, ends) = Best(P, E, e.o, e.how) ELSE TRUE)
      [] e.op = "raised" -> {"raised " \o e.exc}
      [] OTHER -> {"unknown event"}
=============================================================================

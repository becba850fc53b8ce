----------------------------- MODULE RegexText ------------------------------
(***************************************************************************)
(* Every text of at most Len characters.  Reading fails exactly for broken *)
(* text and for text with + or * where an operand should stand; the two    *)
(* are told apart by a left-to-right scan that knows nothing of the        *)
(* grammar.  Emits the texts that are readable or broken.                  *)
(***************************************************************************)
EXTENDS Automata, TLC, Json, IOUtils
CONSTANTS Longest
VARIABLE s
Chars == {"a", "(", ")", "+", "*", "\\"}
\* an operand is due at the start, after "(" and after "+"
Bare(x) == LET z == FoldLeft(LAMBDA a, c :
                        IF a.esc THEN [esc |-> FALSE, due |-> FALSE, bad |-> a.bad]
                        ELSE [esc |-> c = "\\", due |-> c \in {"(", "+"}, bad |-> a.bad \/ (a.due /\ c \in {"+", "*"})],
                        [esc |-> FALSE, due |-> TRUE, bad |-> FALSE], x)
           IN z.bad
Init == s = <<>>
Next == /\ Len(s) < Longest
        /\ \E c \in Chars : s' = Append(s, c)
        /\ IF IOEnv.EMIT = "1" /\ (Broken(s') \/ ~Bare(s'))
           THEN PrintT("GEN " \o ToJson([s |-> s', broken |-> Broken(s')])) ELSE TRUE
Spec == Init /\ [][Next]_s
Agree == (Parse(s) = Bad) <=> (Broken(s) \/ Bare(s))
=============================================================================

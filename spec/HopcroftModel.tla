---------------------------- MODULE HopcroftModel ----------------------------
(***************************************************************************)
(* Partition-refinement minimization with a worklist, any choice of the    *)
(* next splitter and any symbol order, run on every DFA with N states and  *)
(* K symbols.  Frozen = TRUE: the splitter is the block as it was when     *)
(* taken from the worklist.  Frozen = FALSE: the splitter shrinks when it  *)
(* is split by its own refinement.                                         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANTS N, K, Frozen
VARIABLES T, F, P, work, cur, syms
vars == <<T, F, P, work, cur, syms>>
Q == 1..N
Blocks(S) == S \ {{}}
\* states are numbered in breadth-first order (one representative per isomorphism class)
RECURSIVE Bfs(_, _, _)
Bfs(ord, i, t) == IF i > Len(ord) THEN ord
    ELSE Bfs(FoldLeft(LAMBDA o, c : IF t[ord[i]][c] \in ToSet(o) THEN o ELSE Append(o, t[ord[i]][c]),
                      ord, [c \in 1..K |-> c]), i + 1, t)
Init == /\ T \in [Q -> [1..K -> Q]] /\ F \in SUBSET Q
        /\ Bfs(<<1>>, 1, T) = [i \in Q |-> i]
        /\ P = Blocks({F, Q \ F}) /\ work = P /\ cur = {} /\ syms = {}
        /\ IF IOEnv.EMIT = "1" THEN PrintT("GEN " \o ToJson([d |-> T, f |-> SetToSeq(F)])) ELSE TRUE
TakeSplitter == /\ syms = {} /\ work # {}
        /\ \E b \in work : cur' = b /\ work' = work \ {b} /\ syms' = 1..K
        /\ UNCHANGED <<T, F, P>>
Split == /\ \E c \in syms :
              LET X == {q \in Q : T[q][c] \in cur}
                  hit == {b \in P : b \cap X # {} /\ b \ X # {}}
                  more(b) == IF b \in work THEN {b \cap X, b \ X}
                             ELSE IF Cardinality(b \cap X) < Cardinality(b \ X) THEN {b \cap X} ELSE {b \ X}
              IN  /\ syms' = syms \ {c}
                  /\ P' = (P \ hit) \cup UNION {{b \cap X, b \ X} : b \in hit}
                  /\ work' = (work \ hit) \cup UNION {more(b) : b \in hit}
                  /\ cur' = IF ~Frozen /\ cur \in hit THEN cur \ X ELSE cur
         /\ UNCHANGED <<T, F>>
Next == TakeSplitter \/ Split
Spec == Init /\ [][Next]_vars

RECURSIVE Moore(_)
Moore(part) ==
    LET blk(q) == CHOOSE b \in part : q \in b
        sig(q) == <<blk(q), [c \in 1..K |-> blk(T[q][c])]>>
        nx == {{p \in Q : sig(p) = sig(q)} : q \in Q}
    IN  IF nx = part THEN part ELSE Moore(nx)
Minimal == work = {} /\ syms = {} => P = Moore(Blocks({F, Q \ F}))
NeverTooFine == \A b \in Moore(Blocks({F, Q \ F})) : \E a \in P : b \subseteq a
=============================================================================

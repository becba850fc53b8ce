---------------------------- MODULE AlgebraModel ----------------------------
(***************************************************************************)
(* Sessions of language operations.  Every language is kept twice: as the  *)
(* canonical automaton that judges the code, built by products and subset  *)
(* constructions, and as the plain set of its words up to a length, built  *)
(* by set operations on words.  The two must stay the same language.       *)
(***************************************************************************)
EXTENDS Automata, TLC, IOUtils, Json
CONSTANTS K, N, Depth, MaxLen
VARIABLES L, W, ops
vars == <<L, W, ops>>

Words == UNION {[1..m -> 1..K] : m \in 0..MaxLen}
WordsOf(A) == {w \in Words : LHas(A, w)}
Table(d, f) == [n |-> N, init |-> {1}, final |-> f, d |-> [q \in 1..N |-> [c \in 1..K |-> {d[q][c]}]]]
Bases == {Lang(Table(d, f), K) : d \in [1..N -> [1..K -> 1..N]], f \in SUBSET (1..N)}
BaseWords == [A \in Bases |-> WordsOf(A)]

AInit == \E A, B \in Bases : /\ L = <<A, B>>
                             /\ W = <<BaseWords[A], BaseWords[B]>>
                             /\ ops = <<>>

Put(A, w, o) == L' = Append(L, A) /\ W' = Append(W, w) /\ ops' = Append(ops, o)
Complement == \E i \in 1..Len(L) : Put(LNot(L[i]), Words \ W[i], [op |-> "not", a |-> i])
Backwards == \E i \in 1..Len(L) : Put(LRev(L[i], K), {Reverse(w) : w \in W[i]}, [op |-> "rev", a |-> i])
Both == \E i, j \in 1..Len(L) : i < j /\ Put(LOp("and", L[i], L[j], K), W[i] \cap W[j], [op |-> "and", a |-> i, b |-> j])
Either == \E i, j \in 1..Len(L) : i < j /\ Put(LOp("or", L[i], L[j], K), W[i] \cup W[j], [op |-> "or", a |-> i, b |-> j])
OnlyOne == \E i, j \in 1..Len(L) : i < j /\ Put(LOp("xor", L[i], L[j], K), (W[i] \cup W[j]) \ (W[i] \cap W[j]), [op |-> "xor", a |-> i, b |-> j])
ANext == Len(ops) < Depth /\ (Complement \/ Backwards \/ Both \/ Either \/ OnlyOne)
ASpec == AInit /\ [][ANext]_vars

SameLanguages == \A i \in 1..Len(L) : WordsOf(L[i]) = W[i]
\* a difference between two automata shows on a word shorter than the product of their sizes
Seen(A, B) == A.n * B.n <= MaxLen + 1
Comparisons == \A i, j \in 1..Len(L) :
    /\ LSub(L[i], L[j], K) => W[i] \subseteq W[j]
    /\ Seen(L[i], L[j]) /\ W[i] \subseteq W[j] => LSub(L[i], L[j], K)
    /\ (L[i] = L[j]) = (LSub(L[i], L[j], K) /\ LSub(L[j], L[i], K))
Emptiness == \A i \in 1..Len(L) : L[i].n <= MaxLen + 1 => LEmpty(L[i]) = (W[i] = {})
Laws == LET A == L[Len(L)] B == L[1] IN
    /\ LRev(LRev(A, K), K) = A
    /\ LNot(LOp("and", A, B, K)) = LOp("or", LNot(A), LNot(B), K)
    /\ LEmpty(LOp("xor", A, B, K)) = (A = B)
    /\ LEmpty(LOp("and", A, LNot(B), K)) = LSub(A, B, K)

AEmit == IF IOEnv.EMIT = "1" /\ Len(ops) = Depth
         THEN PrintT("GEN " \o ToJson([base |-> <<L[1], L[2]>>, ops |-> ops]))
         ELSE TRUE
=============================================================================

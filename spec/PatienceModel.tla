---------------------------- MODULE PatienceModel ----------------------------
(***************************************************************************)
(* Piles: an element replaces the smallest head not below it.  Heads stay  *)
(* the smallest last values of increasing subsequences of each length, at  *)
(* their earliest positions, and following the links gives such a          *)
(* subsequence.                                                            *)
(***************************************************************************)
EXTENDS Subseq, Json, IOUtils
CONSTANTS N, Val
VARIABLES s, at, head, chain      \* head[i]: position; chain[i]: positions ending in head[i]
vars == <<s, at, head, chain>>
Init == s \in UNION {[1..n -> 1..Val] : n \in 0..N} /\ at = 1 /\ head = <<>> /\ chain = <<>>
Pile(x) == Cardinality({i \in 1..Len(head) : s[head[i]] < x}) + 1
Next == /\ at <= Len(s) /\ at' = at + 1 /\ s' = s
        /\ LET i == Pile(s[at])
               link == IF i = 1 THEN <<at>> ELSE Append(chain[i - 1], at) IN
           IF i > Len(head) THEN head' = Append(head, at) /\ chain' = Append(chain, link)
           ELSE IF s[head[i]] > s[at] THEN head' = [head EXCEPT ![i] = at] /\ chain' = [chain EXCEPT ![i] = link]
           ELSE UNCHANGED <<head, chain>>
Spec == Init /\ [][Next]_vars
Seen == SubSeq(s, 1, at - 1)
Picks == {p \in SUBSET (1..(at - 1)) : LET q == SetToSortSeq(p, <) IN \A i \in 1..(Len(q) - 1) : s[q[i]] < s[q[i + 1]]}
\* plain meaning of the lengths and of the preferred end
Meaning == LET best == Max({Cardinality(p) : p \in Picks})
               ends == {Max(p) : p \in {q \in Picks : Cardinality(q) = best}} IN
    /\ LisLen(Seen) = best /\ Len(head) = best
    /\ best > 0 => /\ BestEnd(Seen) = Min({s[i] : i \in ends})
                   /\ FirstEnd(Seen) = Min({i \in ends : s[i] = BestEnd(Seen)})
                   /\ Last(head) = FirstEnd(Seen)
Links == \A i \in 1..Len(head) : /\ Len(chain[i]) = i /\ Last(chain[i]) = head[i] /\ Rising(chain[i])
                                 /\ Rising([k \in 1..i |-> s[chain[i][k]]])
Emit == IF IOEnv.EMIT = "1" /\ at = Len(s) + 1 THEN PrintT("GEN " \o ToJson([s |-> s])) ELSE TRUE
=============================================================================

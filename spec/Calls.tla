-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* A session of calls and partly consumed iterations over some arguments.  *)
(* alone[k] is what task k gives when it runs with nothing before or       *)
(* beside it: one answer for a plain call, a sequence for an iteration.    *)
(* The state is the task and position of every open iteration, and what    *)
(* plain calls have handed out.  Scribbling is the caller changing every   *)
(* answer handed out so far: they are the caller's own, so nothing else    *)
(* may change with them.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

KClause(name, ok) == IF ok THEN {} ELSE {name}
KBegin(alone, args) == [alone |-> alone, args |-> args, open |-> <<>>, held |-> <<>>]
KApply(s, e) ==
    CASE e.op = "open" -> [s EXCEPT !.open = Append(@, [k |-> e.k, at |-> 0])]
      [] e.op = "next" -> [s EXCEPT !.open[e.g].at = @ + 1]
      [] e.op = "call" -> [s EXCEPT !.held = Append(@, e.k)]
      [] e.op = "scribble" -> [s EXCEPT !.held = <<>>]
      [] OTHER -> s
KFails(s, e) ==
    IF e.op = "raised" THEN {"raised " \o e.exc} ELSE
    KClause("arguments unchanged", e.args = s.args) \cup
    (CASE e.op \in {"open", "scribble"} -> {}
       [] e.op = "next" -> LET o == s.open[e.g] IN KClause("iterations advance by themselves", o.at < Len(s.alone[o.k]) /\ e.r = s.alone[o.k][o.at + 1])
       [] e.op = "call" -> KClause("same answer as alone", e.r = s.alone[e.k][1])
       [] e.op = "again" -> KClause("answers handed out unchanged", e.r = [i \in 1..Len(s.held) |-> s.alone[s.held[i]][1]])
       [] OTHER -> {"unknown event"})
=============================================================================

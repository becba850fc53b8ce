------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Replays recorded traces of the implementation through a specification.  *)
(* A specification supplies three operators:                               *)
(*   Start(tr)     abstract state before the first event of trace tr       *)
(*   Fails(st, e)  names of the clauses that event e breaks in state st    *)
(*   Apply(st, e)  abstract state after a legal event                      *)
(* Every trace is one chain of states; a chain stops at its first illegal  *)
(* event, which is reported with the names of the clauses it breaks.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, Functions

CONSTANTS Start(_), Fails(_, _), Apply(_, _)

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, st, bad

TInit == /\ t \in 1..Len(Traces)
         /\ l = 1
         /\ bad = FALSE
         \* a trace that is nothing but a breakdown may lack its header
         /\ st = IF Traces[t].ops # <<>> /\ Traces[t].ops[1].op = "broken" THEN [broken |-> TRUE] ELSE Start(Traces[t])

Broken(e) == IF e.op = "broken" THEN {e.what} ELSE Fails(st, e)

TNext == /\ ~bad
         /\ l <= Len(Traces[t].ops)
         /\ t' = t
         /\ LET e == Traces[t].ops[l]
                f == Broken(e)
            IN  IF f = {}
                THEN /\ st' = Apply(st, e)
                     /\ l' = l + 1
                     /\ bad' = FALSE
                ELSE /\ PrintT("FAIL " \o ToString(t) \o " " \o ToString(l) \o " " \o ToString(f))
                     /\ bad' = TRUE
                     /\ UNCHANGED <<l, st>>

TSpec == TInit /\ [][TNext]_<<t, l, st, bad>>

\* A clause is a pair name |-> condition; Broke collects the names that do not hold.
Cl(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================

------------------------------ MODULE CallsModel -----------------------------
(***************************************************************************)
(* Iterations over two lists that work through a buffer of their own, and  *)
(* plain calls that sort a list into a buffer and sum it up.  The same     *)
(* machine with a shared buffer, or working on the argument itself and     *)
(* putting it back at the end, breaks the clauses; Share and InPlace say   *)
(* which machine is run.  Remember says that the answer of a call is kept  *)
(* and handed out again, which shows once the caller has changed it.       *)
(* Every way of interleaving is explored.                                  *)
(***************************************************************************)
EXTENDS Calls, Json, IOUtils
CONSTANTS Steps, CallsMade, Share, InPlace, Remember
VARIABLES args, buf, pc, made, kept, told, sched
vars == <<args, buf, pc, made, kept, told, sched>>
Lists == <<<<2, 3, 1>>, <<3, 1, 2>>>>
\* task 1, 2: walk the rotations of a list, written g[1] first;  task 3: first element and length
Turn(s) == Tail(s) \o <<s[1]>>
Walk == [k \in 1..2 |-> [i \in 1..Steps |-> IF i = 1 THEN Lists[k] ELSE IF i = 2 THEN Turn(Lists[k]) ELSE IF i = 3 THEN Turn(Turn(Lists[k])) ELSE Lists[k]]]
Alone == <<Walk[1], Walk[2], <<Lists[1]>>>>
Where(g) == IF Share THEN 1 ELSE g
Init == /\ args = Lists /\ buf = <<<<>>, <<>>>> /\ pc = <<0, 0>> /\ made = 0 /\ kept = <<>>
        /\ told = KBegin(Alone, Lists) /\ sched = <<>>
\* the observation that an event would make, judged as a recorded one is
Tell(e) == /\ Assert(KFails(told, e) = {}, <<"broken", KFails(told, e), e>>) /\ told' = KApply(told, e)
Opened(g) == pc[g] > 0
Begin(g) == /\ pc[g] = 0 /\ (g = 2 => pc[1] > 0)
            /\ pc' = [pc EXCEPT ![g] = 1]
            /\ IF InPlace THEN UNCHANGED buf ELSE buf' = [buf EXCEPT ![Where(g)] = args[g]]
            /\ args' = args /\ made' = made /\ kept' = kept /\ sched' = Append(sched, g)
            /\ Tell([op |-> "open", k |-> g, args |-> args])
Advance(g) == /\ pc[g] > 0 /\ pc[g] <= Steps
              /\ LET b == IF InPlace THEN args[g] ELSE buf[Where(g)] IN
                 /\ IF InPlace THEN args' = [args EXCEPT ![g] = Turn(@)] /\ UNCHANGED buf
                    ELSE buf' = [buf EXCEPT ![Where(g)] = Turn(b)] /\ UNCHANGED args
                 /\ Tell([op |-> "next", g |-> g, r |-> b, args |-> args'])
              /\ pc' = [pc EXCEPT ![g] = @ + 1] /\ made' = made /\ kept' = kept /\ sched' = Append(sched, g)
Call == /\ made < CallsMade /\ made' = made + 1
        /\ LET r == IF Remember /\ kept # <<>> THEN kept ELSE args[1] IN
           Tell([op |-> "call", k |-> 3, r |-> r, args |-> args]) /\ kept' = r
        /\ UNCHANGED <<args, buf, pc>> /\ sched' = Append(sched, 3)
\* the caller changes what it has been given
Scribble == /\ kept # <<>> /\ kept # <<0>> /\ kept' = <<0>>
            /\ Tell([op |-> "scribble", args |-> args])
            /\ UNCHANGED <<args, buf, pc, made>> /\ sched' = Append(sched, 4)
Next == (\E g \in 1..2 : Begin(g) \/ Advance(g)) \/ Call \/ Scribble
Spec == Init /\ [][Next]_vars
Done == pc = <<Steps + 1, Steps + 1>> /\ made = CallsMade
Held == told.args = args
Emit == IF IOEnv.EMIT = "1" /\ Done THEN PrintT("GEN " \o ToJson([s |-> sched])) ELSE TRUE
=============================================================================

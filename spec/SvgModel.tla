------------------------------ MODULE SvgModel ------------------------------
(***************************************************************************)
(* Nesting model: every order of groups, custom containers, shapes and     *)
(* closings; whatever the calls, the markup the machine prescribes is      *)
(* properly nested exactly when close() must accept.  Emits call orders.   *)
(***************************************************************************)
EXTENDS SvgDoc, TLC, Json, IOUtils
CONSTANTS Depth
VARIABLES st, h
vars == <<st, h>>
Init == st = [want |-> <<>>, open |-> <<>>, tol |-> 0, decl |-> FALSE, root |-> {}] /\ h = <<>>
Call(o) == [op |-> o, style |-> <<>>, more |-> <<>>, name |-> "a", attrs |-> <<>>, p |-> <<0, 0>>, rad |-> 1, label |-> "x"]
Kinds == {"group", "open", "circle", "text"}
Step(o) == st' = SVApply(st, Call(o)) /\ h' = Append(h, o)
Next == /\ Len(h) < Depth
        /\ \/ \E o \in Kinds : Step(o)
           \/ st.open # <<>> /\ Last(st.open) = "g" /\ Step("ungroup")
           \/ st.open # <<>> /\ Last(st.open) = "a" /\ Step("shut")
        /\ IF IOEnv.EMIT = "1" /\ Len(h') = Depth THEN PrintT("GEN " \o ToJson(h')) ELSE TRUE
Spec == Init /\ [][Next]_vars
NestedIffClosable == SVNested(st.want) = (st.open = <<>>)
=============================================================================

---------------------------- MODULE Operations ----------------------------
(* Execution of tasks by the name of their operation (C21).  A program      *)
(* defines operations; a call is a task built from one of them and handed   *)
(* over, in serialized form, to whatever executes it.                       *)
EXTENDS Naturals, FiniteSets, TLC
VARIABLES call,  \* call -> operation and data it was built from
          ran,   \* call -> what was executed on its behalf
          done   \* calls whose result has come back
vars == <<call, ran, done>>
Init == call = <<>> /\ ran = <<>> /\ done = {}
Call(k, o, f) == /\ k \notin DOMAIN call
                 /\ call' = (k :> [op |-> o, f |-> f]) @@ call
                 /\ UNCHANGED <<ran, done>>
(* The body of operation o is entered with the operation's data f, for k.   *)
Run(k, o, f) == /\ k \in DOMAIN call /\ k \notin DOMAIN ran
                /\ call[k] = [op |-> o, f |-> f]
                /\ ran' = (k :> o) @@ ran
                /\ UNCHANGED <<call, done>>
(* The result of call k says that it was made by o with data f.             *)
Out(k, o, f) == /\ k \in DOMAIN ran /\ k \notin done
                /\ call[k] = [op |-> o, f |-> f]
                /\ done' = done \cup {k}
                /\ UNCHANGED <<call, ran>>
End == done = DOMAIN call
----------------------------------------------------------------------------
CONSTANTS Ops, Calls
Next == \E k \in Calls, o \in Ops : Call(k, o, 0) \/ Run(k, o, 0) \/ Out(k, o, 0)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E k \in Calls, o \in Ops : Run(k, o, 0) \/ Out(k, o, 0))
Named == \A k \in DOMAIN ran : ran[k] = call[k].op
Answered == \A k \in Calls : (k \in DOMAIN call) ~> (k \in done)
=============================================================================

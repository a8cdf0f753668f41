------------------------------ MODULE Sharing ------------------------------
(* Directives that share a runtime (C20).  What each of them does is the    *)
(* matter of Pipeline; here: which result channels (jobs) are whose, and    *)
(* what becomes of them.                                                    *)
EXTENDS Naturals, FiniteSets, TLC
VARIABLES owner,  \* job -> directive
          over,   \* directives that have finished or been dropped
          gone    \* jobs seen to be released
vars == <<owner, over, gone>>
Init == owner = <<>> /\ over = {} /\ gone = {}
(* A task of directive d asks for its result to be sent to this job.        *)
Task(d, job) ==
    /\ job \in DOMAIN owner => owner[job] = d
    /\ job \notin gone
    /\ owner' = (job :> d) @@ owner /\ UNCHANGED <<over, gone>>
Over(d) == d \notin over /\ over' = over \cup {d} /\ UNCHANGED <<owner, gone>>
(* A message sent to the job by somebody who knew it all along: is it still *)
(* there for somebody who asks for the job by name?                         *)
Probe(job, alive) ==
    /\ job \in DOMAIN owner /\ owner[job] \in over /\ ~alive
    /\ gone' = gone \cup {job} /\ UNCHANGED <<owner, over>>
----------------------------------------------------------------------------
CONSTANTS D, J
Next == \E d \in D : Over(d) \/ (\E j \in J : Task(d, j) \/ \E a \in BOOLEAN : Probe(j, a))
Spec == Init /\ [][Next]_vars
OneOwner == [][\A j \in DOMAIN owner : owner'[j] = owner[j]]_vars
OnlyOver == \A j \in gone : owner[j] \in over
=============================================================================

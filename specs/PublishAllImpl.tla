--------------------------- MODULE PublishAllImpl ---------------------------
(* The loop: fill up to the limit from the stream, collect completions,     *)
(* stop at the first error, end when the stream has ended and all is done.  *)
EXTENDS Naturals, FiniteSets
CONSTANTS Items, Limit, Defect
VARIABLES offered, read, started, completed, ended, ending, failure, over,
          ready     \* outcomes of publishes that have not been collected yet
C == INSTANCE PublishAll WITH Limit0 <- Limit
vars == <<offered, read, started, completed, ended, ending, failure, over, ready>>
Init == C!Init /\ ready = {}
Flying == started \ completed
(* environment *)
Offer(k) == C!Offer(k) /\ UNCHANGED ready
OfferEnd == ~ending /\ C!OfferEnd /\ UNCHANGED ready
Outcome(k, good) == /\ over = "no" /\ k \in Flying /\ ~\E r \in ready : r[1] = k
                    /\ ready' = ready \cup {<<k, good>>} /\ UNCHANGED <<offered, read, started, completed, ended, ending, failure, over>>
(* the loop *)
Going == over = "no" /\ (failure = "no" \/ Defect = "reads_on")
Take(k) == /\ Going /\ ~ended /\ k \in offered \ read
           /\ Cardinality(Flying) < (IF Defect = "off_by_one" THEN Limit + 1 ELSE Limit)
           /\ read' = read \cup {k} /\ started' = started \cup {k}
           /\ UNCHANGED <<offered, completed, ended, ending, failure, over, ready>>
TakeEnd == /\ Going /\ ~ended /\ ending /\ ended' = TRUE
           /\ UNCHANGED <<offered, read, started, completed, ending, failure, over, ready>>
Collect(r) == /\ Going /\ r \in ready /\ ready' = ready \ {r}
              /\ IF r[2] THEN completed' = completed \cup {r[1]} /\ UNCHANGED failure
                 ELSE failure' = (IF Defect = "error_lost" THEN failure ELSE "f") /\ completed' = (IF Defect = "error_lost" THEN completed \cup {r[1]} ELSE completed)
              /\ UNCHANGED <<offered, read, started, ended, ending, over>>
End == /\ Going /\ failure = "no" /\ ended /\ (Flying = {} \/ Defect = "end_at_end") /\ over' = "ok"
       /\ UNCHANGED <<offered, read, started, completed, ended, ending, failure, ready>>
EndError == /\ over = "no" /\ failure # "no" /\ over' = failure
            /\ UNCHANGED <<offered, read, started, completed, ended, ending, failure, ready>>
Internal == (\E k \in Items : Take(k)) \/ TakeEnd \/ (\E r \in ready : Collect(r)) \/ End \/ EndError
Next == (\E k \in Items : Offer(k) \/ Outcome(k, TRUE) \/ Outcome(k, FALSE)) \/ OfferEnd \/ Internal
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Internal) /\ \A k \in Items : WF_vars(Outcome(k, TRUE))
(* Taking an item is reading it and starting its publish.                   *)
Contract == [][ \/ \E k \in Items : C!Offer(k) \/ (C!Complete(k) /\ <<k, TRUE>> \in ready) \/ (C!Fail(k, "f") /\ <<k, FALSE>> \in ready)
                                    \/ (C!Active /\ ~ended /\ k \in offered \ read /\ Cardinality(Flying) < Limit
                                        /\ read' = read \cup {k} /\ started' = started \cup {k}
                                        /\ UNCHANGED <<offered, completed, ended, ending, failure, over>>)
                \/ C!OfferEnd \/ C!ReadEnd \/ C!Return \/ C!ReturnError("f") ]_C!vars
Prompt == ENABLED Internal \/ ready # {} \/ C!Quiet
Bounded == C!Bounded /\ C!AllOrError
Completes == (ended /\ offered = read) ~> over # "no"
=============================================================================

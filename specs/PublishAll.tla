----------------------------- MODULE PublishAll -----------------------------
(* Publishing a stream (C23).                                               *)
EXTENDS Naturals, FiniteSets
CONSTANTS Items, Limit0
VARIABLES offered,  \* items the stream could yield
          read, started, completed, ended,
          ending,   \* the stream could report its end
          failure,  \* "no" or the first error that has occurred
          over      \* "no", "ok", or the error returned
vars == <<offered, read, started, completed, ended, ending, failure, over>>
Init == /\ offered = {} /\ read = {} /\ started = {} /\ completed = {} /\ ended = FALSE /\ ending = FALSE
        /\ failure = "no" /\ over = "no"
InProgress == started \ completed
Offer(k) == /\ k \notin offered /\ offered' = offered \cup {k}
            /\ UNCHANGED <<read, started, completed, ended, ending, failure, over>>
OfferEnd == /\ ending' = TRUE /\ UNCHANGED <<offered, read, started, completed, ended, failure, over>>
Active == over = "no" /\ failure = "no"
Read(k) == /\ Active /\ ~ended /\ k \in offered \ read
           /\ read' = read \cup {k}
           /\ UNCHANGED <<offered, started, completed, ended, ending, failure, over>>
ReadEnd == /\ Active /\ ended' = TRUE
           /\ UNCHANGED <<offered, read, started, completed, ending, failure, over>>
ReadError(x) == /\ Active /\ ~ended /\ failure' = x
                /\ UNCHANGED <<offered, read, started, completed, ended, ending, over>>
Start(k, limit) ==
    /\ Active /\ k \in read \ started
    /\ limit = 0 \/ Cardinality(InProgress) < limit
    /\ started' = started \cup {k}
    /\ UNCHANGED <<offered, read, completed, ended, ending, failure, over>>
Complete(k) == /\ Active /\ k \in InProgress /\ completed' = completed \cup {k}
               /\ UNCHANGED <<offered, read, started, ended, ending, failure, over>>
Fail(k, x) == /\ Active /\ k \in InProgress /\ failure' = x
              /\ UNCHANGED <<offered, read, started, completed, ended, ending, over>>
Return == /\ Active /\ ended /\ started = read /\ completed = started /\ over' = "ok"
          /\ UNCHANGED <<offered, read, started, completed, ended, ending, failure>>
ReturnError(x) == /\ over = "no" /\ failure = x /\ x # "no" /\ over' = x
                  /\ UNCHANGED <<offered, read, started, completed, ended, ending, failure>>
(* When it has nothing to do but wait for the stream or for publishes.      *)
Quiet == over = "no" =>
            /\ failure = "no"
            /\ ~(ended /\ completed = read)
            /\ started # read => InProgress # {}
            /\ offered \ read # {} \/ (ending /\ ~ended) => InProgress # {}
Next == \/ \E k \in Items : Offer(k) \/ Read(k) \/ Start(k, Limit0) \/ Complete(k) \/ Fail(k, "f")
        \/ OfferEnd \/ ReadEnd \/ ReadError("in") \/ Return \/ ReturnError("f") \/ ReturnError("in")
Spec == Init /\ [][Next]_vars
Bounded == Limit0 = 0 \/ Cardinality(InProgress) <= Limit0
AllOrError == over = "ok" => completed = read /\ ended /\ failure = "no"
=============================================================================

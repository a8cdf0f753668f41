------------------------------- MODULE Coord -------------------------------
(* Contract of a coordinated channel, as its users observe it (C05, C06,    *)
(* C07): a publisher and a stream that ends when the publisher is closed    *)
(* and everything it sent has been acknowledged.                            *)
(*                                                                          *)
(* Operations have a start and an end and may overlap.  What the receiver   *)
(* must not do depends on what has completed, what it may do on what has    *)
(* begun.  `w` in an action is the set of tasks woken since the last one.   *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Msgs, Tasks, AckOps

VARIABLES
    sender,     \* "open", "closing" (a close has begun), "closed" (one has returned)
    pub,        \* message -> "called", "late" (called after closure), "sent", "failed"; while being published
    tx,         \* messages transmitted successfully
    inq,        \* those of them that have not been yielded yet, in order
    given,      \* those that have been yielded
    begun,      \* messages with an acknowledgement begun
    acked,      \* messages with an acknowledgement that has returned
    acking,     \* acknowledgements in progress: op -> message
    poll,       \* the task that is polling the receiver now, if any
    may,        \* at some time during this poll there was nothing to report
    waiting,    \* the task that has been told to wait, if any
    woken,      \* the tasks woken since the last poll began
    ended,      \* the receiver has reported the end
    cut         \* the underlying stream has ended

vars == <<sender, pub, tx, inq, given, begun, acked, acking, poll, may, waiting, woken, ended, cut>>

Nobody == 0
Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Init ==
    /\ sender = "open" /\ pub = Empty /\ tx = {} /\ inq = <<>> /\ given = {}
    /\ begun = {} /\ acked = {} /\ acking = Empty
    /\ poll = Nobody /\ may = FALSE /\ waiting = Nobody /\ woken = {} /\ ended = FALSE /\ cut = FALSE

(* The receiver may report the end: closing has begun, or the underlying    *)
(* stream has ended, and every message sent has been yielded and its        *)
(* acknowledgement has at least begun.                                      *)
MayEnd == (sender # "open" \/ cut) /\ inq = <<>> /\ tx \subseteq begun
(* It must: all of that is over, and nothing else is in progress.           *)
MustEnd == sender = "closed" /\ inq = <<>> /\ tx \subseteq acked /\ pub = Empty /\ acking = Empty
CouldWait == inq = <<>> /\ ~MustEnd
Quiet == sender # "closing" /\ pub = Empty /\ acking = Empty /\ poll = Nobody

(* Whoever waits while there is something to report has been woken.         *)
NotStranded == Quiet /\ waiting # Nobody /\ (inq # <<>> \/ MustEnd) => waiting \in woken

Step(w) == /\ woken' = woken \cup w
           /\ may' = (poll # Nobody /\ (may \/ CouldWait'))
           /\ NotStranded'
           /\ UNCHANGED cut
Rcv == <<given, poll, waiting, ended>>

PublishCall(m, w) ==
    /\ m \notin DOMAIN pub /\ m \notin tx
    /\ pub' = Put(pub, m, IF sender = "closed" THEN "late" ELSE "called")
    /\ UNCHANGED <<sender, tx, inq, begun, acked, acking, Rcv>> /\ Step(w)
(* The message is handed to the underlying channel: not after closure, and  *)
(* not once the receiver has reported the end.                              *)
Transmit(m, ok, w) ==
    /\ m \in DOMAIN pub /\ pub[m] = "called"
    /\ ok => ~ended /\ ~cut
    /\ pub' = Put(pub, m, IF ok THEN "sent" ELSE "failed")
    /\ IF ok THEN tx' = tx \cup {m} /\ inq' = Append(inq, m) ELSE UNCHANGED <<tx, inq>>
    /\ UNCHANGED <<sender, begun, acked, acking, Rcv>> /\ Step(w)
PublishReturn(m, r, w) ==
    /\ m \in DOMAIN pub
    /\ \/ r = "ok" /\ pub[m] = "sent"
       \/ r = "error" /\ pub[m] = "failed"
       \/ r = "closed" /\ pub[m] \in {"called", "late"} /\ sender # "open"
    /\ pub' = Without(pub, m)
    /\ UNCHANGED <<sender, tx, inq, begun, acked, acking, Rcv>> /\ Step(w)

(* By closing or dropping the publisher.                                    *)
CloseCall(w) ==
    /\ sender' = IF sender = "open" THEN "closing" ELSE sender
    /\ UNCHANGED <<pub, tx, inq, begun, acked, acking, Rcv>> /\ Step(w)
CloseReturn(w) ==
    /\ sender # "open"
    /\ sender' = "closed"
    /\ UNCHANGED <<pub, tx, inq, begun, acked, acking, Rcv>> /\ Step(w)

(* ack and nack alike.                                                      *)
AckCall(k, m, w) ==
    /\ k \notin DOMAIN acking /\ m \in given
    /\ acking' = Put(acking, k, m)
    /\ begun' = begun \cup {m}
    /\ UNCHANGED <<sender, pub, tx, inq, acked, Rcv>> /\ Step(w)
AckReturn(k, w) ==
    /\ k \in DOMAIN acking
    /\ acking' = Without(acking, k)
    /\ acked' = acked \cup {acking[k]}
    /\ UNCHANGED <<sender, pub, tx, inq, begun, Rcv>> /\ Step(w)

PollCall(c, w) ==
    /\ poll = Nobody
    /\ poll' = c /\ waiting' = Nobody
    /\ woken' = {} /\ may' = CouldWait
    /\ UNCHANGED <<sender, pub, tx, inq, given, begun, acked, acking, ended, cut>>
Yield(m, w) ==
    /\ poll # Nobody /\ inq # <<>> /\ m = Head(inq)
    /\ inq' = Tail(inq) /\ given' = given \cup {m}
    /\ poll' = Nobody
    /\ UNCHANGED <<sender, pub, tx, begun, acked, acking, waiting, ended, cut>>
    /\ woken' = woken \cup w /\ may' = FALSE /\ NotStranded'
Wait(w) ==
    /\ poll # Nobody /\ may
    /\ poll' = Nobody /\ waiting' = poll
    /\ UNCHANGED <<sender, pub, tx, inq, given, begun, acked, acking, ended, cut>>
    /\ woken' = woken \cup w /\ may' = FALSE /\ NotStranded'
End(w) ==
    /\ poll # Nobody /\ MayEnd
    /\ poll' = Nobody /\ ended' = TRUE
    /\ UNCHANGED <<sender, pub, tx, inq, given, begun, acked, acking, waiting, cut>>
    /\ woken' = woken \cup w /\ may' = FALSE /\ NotStranded'
Notify(w) ==
    /\ woken' = woken \cup w
    /\ UNCHANGED <<sender, pub, tx, inq, given, begun, acked, acking, poll, may, waiting, ended, cut>>
(* The underlying stream ends; it yields what it still has.                 *)
Cut(w) ==
    /\ cut' = TRUE /\ woken' = woken \cup w
    /\ UNCHANGED <<sender, pub, tx, inq, given, begun, acked, acking, poll, may, waiting, ended>>

Next ==
    \/ \E w \in SUBSET Tasks : Notify(w)
    \/ \E w \in SUBSET Tasks :
         \/ \E m \in Msgs : \/ PublishCall(m, w)
                            \/ \E ok \in BOOLEAN : Transmit(m, ok, w)
                            \/ \E r \in {"ok", "error", "closed"} : PublishReturn(m, r, w)
                            \/ Yield(m, w)
                            \/ \E k \in AckOps : AckCall(k, m, w)
         \/ \E k \in AckOps : AckReturn(k, w)
         \/ CloseCall(w) \/ CloseReturn(w) \/ Cut(w)
         \/ \E c \in Tasks : PollCall(c, w)
         \/ Wait(w) \/ End(w)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Range(s) == {s[k] : k \in 1..Len(s)}
TypeOK ==
    /\ sender \in {"open", "closing", "closed"}
    /\ given \subseteq tx /\ begun \subseteq given /\ acked \subseteq begun
    /\ Range(inq) = tx \ given
NoEarlyEnd == ended => (sender # "open" \/ cut) /\ tx \subseteq begun
Inv == TypeOK /\ NoEarlyEnd /\ NotStranded

(* If publishes, acknowledgements, closes and polls return, what is yielded *)
(* is acknowledged, and woken tasks poll, a closed channel ends.            *)
LiveNext ==
    \E w \in SUBSET Tasks :
         \/ \E m \in Msgs : \/ sender = "open" /\ PublishCall(m, w)
                            \/ Transmit(m, TRUE, w)
                            \/ PublishReturn(m, "ok", w)
                            \/ PublishReturn(m, "closed", w)
                            \/ Yield(m, w)
                            \/ m \notin begun /\ \E k \in AckOps : AckCall(k, m, w)
         \/ \E k \in AckOps : AckReturn(k, w)
         \/ sender = "open" /\ CloseCall(w)
         \/ sender = "closing" /\ CloseReturn(w)
         \/ ~ended /\ \E c \in Tasks : PollCall(c, w)
         \/ Wait(w) \/ End(w)
Fair ==
    /\ \A m \in Msgs : WF_vars(\E w \in SUBSET Tasks : Transmit(m, TRUE, w) \/ PublishReturn(m, "ok", w) \/ PublishReturn(m, "closed", w))
    /\ \A m \in Msgs : WF_vars(\E w \in SUBSET Tasks, k \in AckOps : m \notin begun /\ AckCall(k, m, w))
    /\ \A k \in AckOps : WF_vars(\E w \in SUBSET Tasks : AckReturn(k, w))
    /\ WF_vars(\E w \in SUBSET Tasks : sender = "closing" /\ CloseReturn(w))
    /\ WF_vars(\E w \in SUBSET Tasks : \/ \E m \in Msgs : Yield(m, w) 
                                       \/ Wait(w) \/ End(w))
    /\ WF_vars(~ended /\ (waiting = Nobody \/ waiting \in woken) /\ \E c \in Tasks : PollCall(c, {}))
FairSpec == Init /\ [][LiveNext]_vars /\ Fair
EndsWhenClosed == (sender = "closed") ~> ended
=============================================================================

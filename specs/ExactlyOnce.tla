---------------------------- MODULE ExactlyOnce ----------------------------
(* Contract of an exactly-once queue, as its users observe it (C01).        *)
(*                                                                          *)
(* A message is in `queue` from the moment its publication takes effect     *)
(* (some time between the start and the end of the publish operation) until *)
(* some consumer takes it.  A consumer handle whose last poll found nothing *)
(* is `waiting`; it is `woken` once its waker has been invoked since.       *)
(* `w` in an action is the set of consumers whose wakers were invoked.      *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Consumers, Messages

VARIABLES
    queue,      \* messages published and not yet taken
    started,    \* messages whose publish has started but not taken effect
    settling,   \* messages whose publish has taken effect but not returned
    taken,      \* <<consumer, message>> in the order of taking
    open,       \* consumers that are declared and not dropped
    looking,    \* consumers in the middle of a poll
    waiting,    \* open consumers whose last poll returned "nothing yet"
    woken       \* waiting consumers notified since that poll

vars == <<queue, started, settling, taken, open, looking, waiting, woken>>

Range(s) == {s[i] : i \in 1..Len(s)}
TakenMsgs == {taken[i][2] : i \in 1..Len(taken)}
Known == started \cup Range(queue) \cup TakenMsgs

Init ==
    /\ queue = <<>> /\ started = {} /\ settling = {} /\ taken = <<>>
    /\ open = {} /\ looking = {} /\ waiting = {} /\ woken = {}

Busy(c) == started # {} \/ settling # {} \/ looking \ {c} # {}
Quiet == started = {} /\ settling = {} /\ looking = {}

(* A message is available and somebody waits un-notified: then somebody     *)
(* else must have been notified and is going to look.                       *)
NotStranded == (Quiet /\ queue # <<>> /\ waiting \ woken # {}) => woken # {}

Declare(c) ==
    /\ c \notin open
    /\ open' = open \cup {c}
    /\ UNCHANGED <<queue, started, settling, taken, looking, waiting, woken>>

PublishStart(m) ==
    /\ m \notin Known
    /\ started' = started \cup {m}
    /\ UNCHANGED <<queue, settling, taken, open, looking, waiting, woken>>

PublishEffect(m) ==
    /\ m \in started
    /\ started' = started \ {m}
    /\ settling' = settling \cup {m}
    /\ queue' = Append(queue, m)
    /\ UNCHANGED <<taken, open, looking, waiting, woken>>

PublishEnd(m, w) ==
    /\ m \in settling
    /\ settling' = settling \ {m}
    /\ woken' = woken \cup (w \cap waiting)
    /\ UNCHANGED <<queue, started, taken, open, looking, waiting>>
    /\ NotStranded'

(* An uninterrupted publish.                                                *)
Publish(m, w) ==
    /\ m \notin Known
    /\ queue' = Append(queue, m)
    /\ woken' = woken \cup (w \cap waiting)
    /\ UNCHANGED <<started, settling, taken, open, looking, waiting>>
    /\ NotStranded'

Take(c, m, w) ==
    /\ c \in open
    /\ queue # <<>> /\ m = Head(queue)
    /\ queue' = Tail(queue)
    /\ taken' = Append(taken, <<c, m>>)
    /\ looking' = looking \ {c}
    /\ waiting' = waiting \ {c}
    /\ woken' = (woken \cup (w \cap waiting)) \ {c}
    /\ UNCHANGED <<started, settling, open>>
    /\ NotStranded'

(* A poll begins (only told apart from its end when others act meanwhile).  *)
Look(c) ==
    /\ c \in open /\ c \notin looking
    /\ looking' = looking \cup {c}
    /\ waiting' = waiting \ {c} /\ woken' = woken \ {c}
    /\ UNCHANGED <<queue, started, settling, taken, open>>

(* A poll may come back empty-handed although the queue is not empty only   *)
(* if what is in it is on its way to a consumer that has been notified, or  *)
(* a publish is still in progress.                                          *)
FindNothing(c, w) ==
    /\ c \in open
    /\ queue = <<>> \/ woken \ {c} # {} \/ Busy(c)
    /\ looking' = looking \ {c}
    /\ waiting' = waiting \cup {c}
    /\ woken' = (woken \ {c}) \cup (w \cap waiting')
    /\ UNCHANGED <<queue, started, settling, taken, open>>
    /\ NotStranded'

Drop(c, w) ==
    /\ c \in open /\ c \notin looking
    /\ open' = open \ {c}
    /\ waiting' = waiting \ {c}
    /\ woken' = (woken \cup (w \cap waiting)) \ {c}
    /\ UNCHANGED <<queue, started, settling, taken, looking>>
    /\ NotStranded'

(* Notifications are also allowed when there is no need for them.           *)
Notify(w) ==
    /\ woken' = woken \cup (w \cap waiting)
    /\ UNCHANGED <<queue, started, settling, taken, open, looking, waiting>>

Next ==
    \/ \E c \in Consumers : Declare(c) \/ Look(c)
    \/ \E m \in Messages : PublishStart(m) \/ PublishEffect(m)
    \/ \E w \in SUBSET waiting : Notify(w)
    \/ \E w \in SUBSET waiting :
         \/ \E m \in Messages : PublishEnd(m, w)
         \/ \E c \in Consumers : FindNothing(c, w) \/ \E m \in Messages : Take(c, m, w)
    \/ \E w \in SUBSET waiting, c \in Consumers : Drop(c, w)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK ==
    /\ open \subseteq Consumers /\ looking \subseteq open /\ waiting \subseteq open \ looking /\ woken \subseteq waiting
    /\ started \subseteq Messages /\ settling \subseteq Messages

(* Nothing is lost, nothing is handed out twice.                            *)
ExactlyOnceDelivery ==
    /\ \A i, j \in 1..Len(taken) : i # j => taken[i][2] # taken[j][2]
    /\ \A i, j \in 1..Len(queue) : i # j => queue[i] # queue[j]
    /\ Range(queue) \cap TakenMsgs = {}
    /\ settling \subseteq Range(queue) \cup TakenMsgs

Inv == TypeOK /\ ExactlyOnceDelivery /\ NotStranded

(* Liveness: if publishes return, notified consumers go and look, nobody is *)
(* dropped any more, and polls that find nothing notify nobody, no message  *)
(* stays behind while somebody waits.                                       *)
Looks(c) == (c \in woken \/ c \in looking) /\ (FindNothing(c, {}) \/ \E w \in SUBSET waiting, m \in Messages : Take(c, m, w))
Finishes(m) == PublishEffect(m) \/ \E w \in SUBSET waiting : PublishEnd(m, w)
LiveNext ==
    \/ \E c \in Consumers : Declare(c) \/ Look(c) \/ FindNothing(c, {})
    \/ \E m \in Messages : PublishStart(m) \/ PublishEffect(m)
    \/ \E w \in SUBSET waiting, m \in Messages :
          PublishEnd(m, w) \/ \E c \in Consumers : Take(c, m, w)
FairSpec == Init /\ [][LiveNext]_vars
                 /\ \A c \in Consumers : WF_vars(Looks(c))
                 /\ \A m \in Messages : WF_vars(Finishes(m))
NoneLeftBehind == [](queue # <<>> /\ waiting # {} => <>(queue = <<>> \/ waiting = {}))
=============================================================================

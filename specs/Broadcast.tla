----------------------------- MODULE Broadcast -----------------------------
(* Contract of a broadcast queue (C02, C03).                                *)
(*                                                                          *)
(* A subscription is a name; `avail[n]` are the messages delivered to the   *)
(* name and not yet taken by one of its consumer handles (handles of the    *)
(* same name share the subscription).  A publish delivers its message to    *)
(* names between its start and its end; it must reach every name subscribed *)
(* when it started.  A persistent queue retains a message published while   *)
(* nobody is subscribed until a new name is being subscribed.               *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Names, Handles, Messages, Publishers, Modes

VARIABLES
    mode,       \* "persistent" or "ephemeral"
    subs,       \* names whose subscription has completed
    avail,      \* name -> messages to be taken
    got,        \* name -> messages ever delivered to it
    retained,   \* messages kept for the next new name
    sent,       \* <<publisher, message>> in the order of the publish starts
    active,     \* publishes in progress: [m, must, alone]
    joining,    \* declarations in progress: <<handle, name>>
    handle,     \* open handles: <<handle, name>>
    taken,      \* <<handle, message>> in the order of taking
    looking,    \* handles in the middle of a poll
    waiting,    \* handles whose last poll found nothing
    woken       \* waiting handles notified since that poll

vars == <<mode, subs, avail, got, retained, sent, active, joining, handle, taken, looking, waiting, woken>>

Range(s) == {s[k] : k \in 1..Len(s)}
Open == {x[1] : x \in handle}
NameOf(c) == (CHOOSE x \in handle : x[1] = c)[2]
OfName(n) == {x[1] : x \in {y \in handle : y[2] = n}}
InProgress == {x.m : x \in active}
Started == {x[2] : x \in Range(sent)}
Ended == Started \ InProgress

Init ==
    /\ mode \in Modes
    /\ subs = {} /\ avail = [n \in Names |-> <<>>] /\ got = [n \in Names |-> {}]
    /\ retained = <<>> /\ sent = <<>> /\ active = {} /\ joining = {} /\ handle = {}
    /\ taken = <<>> /\ looking = {} /\ waiting = {} /\ woken = {}

Quiet == active = {} /\ joining = {} /\ looking = {}

(* Nobody waits un-notified next to an available message, unless another    *)
(* handle of the same subscription has been notified.                       *)
NotStranded ==
    Quiet => \A n \in Names :
        (avail[n] # <<>> /\ (waiting \ woken) \cap OfName(n) # {}) => woken \cap OfName(n) # {}

(* What a persistent queue owes once a publish has ended and somebody is    *)
(* subscribed: the message has reached somebody.  While nobody is           *)
(* subscribed it is retained.                                               *)
Owed ==
    mode = "persistent" =>
        \A m \in Ended : \/ \E n \in Names : m \in got[n]
                         \/ subs = {} /\ m \in Range(retained)

(* The messages of one publisher reach a name in the order of publication.  *)
Earlier(m) == \* the messages its publisher published before m
    LET k == CHOOSE k \in 1..Len(sent) : sent[k][2] = m
    IN {sent[j][2] : j \in {j \in 1..(k - 1) : sent[j][1] = sent[k][1]}}
InOrder(m, n) == \A x \in got[n] : m \notin Earlier(x)

Put(n, m) ==
    /\ m \notin got[n] /\ InOrder(m, n)
    /\ got' = [got EXCEPT ![n] = @ \cup {m}]
    /\ avail' = [avail EXCEPT ![n] = Append(@, m)]

SubStart(c, n) ==
    /\ c \notin Open /\ \A x \in joining : x[1] # c
    /\ joining' = joining \cup {<<c, n>>}
    /\ UNCHANGED <<mode, subs, avail, got, retained, sent, active, handle, taken, looking, waiting, woken>>

(* A new name takes over what was retained, oldest first.                   *)
Replay(n) ==
    /\ mode = "persistent" /\ n \notin subs /\ \E x \in joining : x[2] = n
    /\ retained # <<>> /\ Put(n, Head(retained))
    /\ retained' = Tail(retained)
    /\ UNCHANGED <<mode, subs, sent, active, joining, handle, taken, looking, waiting, woken>>

(* What somebody already got need not be kept (and must not be replayed to  *)
(* the same name).                                                          *)
Forget(m) ==
    /\ m \in Range(retained) /\ \E n \in Names : m \in got[n]
    /\ retained' = SelectSeq(retained, LAMBDA x : x # m)
    /\ UNCHANGED <<mode, subs, avail, got, sent, active, joining, handle, taken, looking, waiting, woken>>

SubEnd(c, n, w) ==
    /\ <<c, n>> \in joining
    /\ joining' = joining \ {<<c, n>>}
    /\ handle' = handle \cup {<<c, n>>}
    /\ subs' = subs \cup {n}
    /\ woken' = woken \cup (w \cap waiting)
    /\ UNCHANGED <<mode, avail, got, retained, sent, active, taken, looking, waiting>>
    /\ Owed' /\ NotStranded'

PublishStart(p, m) ==
    /\ m \notin Started
    /\ \A x \in active : \A k \in 1..Len(sent) : sent[k][2] = x.m => sent[k][1] # p
    /\ sent' = Append(sent, <<p, m>>)
    /\ active' = active \cup {[m |-> m, must |-> subs]}
    /\ UNCHANGED <<mode, subs, avail, got, retained, joining, handle, taken, looking, waiting, woken>>

Deliver(m, n) ==
    /\ m \in InProgress
    /\ n \in subs \/ \E x \in joining : x[2] = n
    /\ Put(n, m)
    /\ UNCHANGED <<mode, subs, retained, sent, active, joining, handle, taken, looking, waiting, woken>>

(* Only messages whose publication began while nobody was subscribed.       *)
Retain(m) ==
    /\ mode = "persistent"
    /\ \E x \in active : x.m = m /\ x.must = {}
    /\ m \notin Range(retained) /\ \A n \in Names : m \notin got[n]
    /\ retained' = Append(retained, m)
    /\ UNCHANGED <<mode, subs, avail, got, sent, active, joining, handle, taken, looking, waiting, woken>>

PublishEnd(m, w) ==
    /\ \E x \in active :
          /\ x.m = m
          /\ \A n \in x.must : m \in got[n]
          /\ active' = active \ {x}
    /\ woken' = woken \cup (w \cap waiting)
    /\ UNCHANGED <<mode, subs, avail, got, retained, sent, joining, handle, taken, looking, waiting>>
    /\ Owed' /\ NotStranded'

Look(c) ==
    /\ c \in Open \ looking
    /\ looking' = looking \cup {c} /\ waiting' = waiting \ {c} /\ woken' = woken \ {c}
    /\ UNCHANGED <<mode, subs, avail, got, retained, sent, active, joining, handle, taken>>

Take(c, m, w) ==
    /\ c \in Open
    /\ LET n == NameOf(c) IN
         /\ avail[n] # <<>> /\ m = Head(avail[n])
         /\ avail' = [avail EXCEPT ![n] = Tail(@)]
    /\ taken' = Append(taken, <<c, m>>)
    /\ looking' = looking \ {c} /\ waiting' = waiting \ {c}
    /\ woken' = (woken \cup (w \cap waiting)) \ {c}
    /\ UNCHANGED <<mode, subs, got, retained, sent, active, joining, handle>>
    /\ NotStranded'

FindNothing(c, w) ==
    /\ c \in Open
    /\ \/ avail[NameOf(c)] = <<>>
       \/ (woken \cap OfName(NameOf(c))) \ {c} # {}
       \/ active # {} \/ joining # {} \/ looking \ {c} # {}
    /\ looking' = looking \ {c}
    /\ waiting' = waiting \cup {c}
    /\ woken' = (woken \ {c}) \cup (w \cap waiting')
    /\ UNCHANGED <<mode, subs, avail, got, retained, sent, active, joining, handle, taken>>
    /\ NotStranded'

Drop(c, w) ==
    /\ c \in Open \ looking
    /\ handle' = {x \in handle : x[1] # c}
    /\ waiting' = waiting \ {c}
    /\ woken' = (woken \cup (w \cap waiting)) \ {c}
    /\ UNCHANGED <<mode, subs, avail, got, retained, sent, active, joining, taken, looking>>
    /\ NotStranded'

Notify(w) ==
    /\ woken' = woken \cup (w \cap waiting)
    /\ UNCHANGED <<mode, subs, avail, got, retained, sent, active, joining, handle, taken, looking, waiting>>

Next ==
    \/ \E n \in Names : Replay(n) \/ \E m \in Messages : Deliver(m, n)
    \/ \E c \in Handles, n \in Names : SubStart(c, n) \/ \E w \in SUBSET waiting : SubEnd(c, n, w)
    \/ \E m \in Messages : Retain(m) \/ Forget(m) \/ \E p \in Publishers : PublishStart(p, m)
    \/ \E w \in SUBSET waiting :
         \/ Notify(w)
         \/ \E m \in Messages : PublishEnd(m, w)
    \/ \E c \in Handles :
         \/ Look(c)
         \/ \E w \in SUBSET waiting : Drop(c, w) \/ FindNothing(c, w) \/ \E m \in Messages : Take(c, m, w)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* What the users are promised, in terms of what they see.                  *)
TakenBy(n, hs) == {taken[k][2] : k \in {k \in 1..Len(taken) : taken[k][1] \in hs}}
NoDuplicates ==
    \A n \in Names : \A j, k \in 1..Len(avail[n]) : j # k => avail[n][j] # avail[n][k]
EveryoneSubscribedGetsIt ==
    (* a message neither awaiting its handles nor in progress has gone to a handle of the name *)
    \A n \in subs : \A m \in got[n] :
        m \in Range(avail[n]) \/ \E k \in 1..Len(taken) : taken[k][2] = m
(* With ephemeral delivery nothing is ever kept for later.                  *)
EphemeralForgets == mode = "ephemeral" => retained = <<>>
Inv == NoDuplicates /\ EveryoneSubscribedGetsIt /\ EphemeralForgets /\ Owed /\ NotStranded
=============================================================================

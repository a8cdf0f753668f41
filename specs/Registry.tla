------------------------------ MODULE Registry ------------------------------
(* Contract of the name space of queues and channels (C04).                 *)
(*                                                                          *)
(* A name denotes a queue from its first declaration until it is deleted.   *)
(* The queue itself (here: its number) lives on for those who hold handles  *)
(* and consumers of it.  Queues behave as in ExactlyOnce / Broadcast, here  *)
(* with operations that do not overlap.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Names, Kinds, MaxQ, MaxO

VARIABLES
    current,    \* name -> number of the queue it denotes, 0: none
    kind,       \* queue -> "once", "bcast" (persistent) or "ephemeral", of its first declaration
    msgs,       \* queue -> messages nobody has taken ("once"), or retained ones
    inbox,      \* queue -> (subscription -> messages), broadcast only
    handle,     \* handle -> queue
    chan,       \* channel -> name and kind
    consumer,   \* consumer -> [q, s] queue and subscription
    idle,       \* consumers whose last poll found nothing
    names,      \* names used or issued so far
    born,       \* message -> queue it was published to
    taken       \* <<consumer, message>>

vars == <<current, kind, msgs, inbox, handle, chan, consumer, idle, names, born, taken>>

Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Queues == DOMAIN kind
NewQ == Cardinality(Queues) + 1
Cur(n) == IF n \in DOMAIN current THEN current[n] ELSE 0

Init ==
    /\ current = Empty /\ kind = Empty /\ msgs = Empty /\ inbox = Empty /\ handle = Empty /\ chan = Empty
    /\ consumer = Empty /\ idle = {} /\ names = {} /\ born = Empty /\ taken = <<>>

(* The queue that name n denotes once somebody has declared it as k.        *)
Denote(n, k) ==
    /\ names' = names \cup {n}
    /\ IF Cur(n) # 0 THEN UNCHANGED <<current, kind>> /\ TRUE
       ELSE current' = Put(current, n, NewQ) /\ kind' = Put(kind, NewQ, k)
QueueOf(n) == IF Cur(n) # 0 THEN Cur(n) ELSE NewQ
Msgs(q) == IF q \in DOMAIN msgs THEN msgs[q] ELSE <<>>
Inbox(q) == IF q \in DOMAIN inbox THEN inbox[q] ELSE Empty

(* Declaring a queue through any clone of the connection.                   *)
Declare(h, n, k) ==
    /\ Denote(n, k)
    /\ handle' = Put(handle, h, QueueOf(n))
    /\ UNCHANGED <<msgs, inbox, chan, consumer, idle, born, taken>>

Delete(n) ==
    /\ current' = Put(current, n, 0)
    /\ UNCHANGED <<kind, msgs, inbox, handle, chan, consumer, idle, names, born, taken>>

(* A channel is a name and a type; the queue is declared when it is used.   *)
Get(c, n, k) ==
    /\ chan' = Put(chan, c, [n |-> n, k |-> k])
    /\ names' = names \cup {n}
    /\ UNCHANGED <<current, kind, msgs, inbox, handle, consumer, idle, born, taken>>
Issue(c, n, k) ==
    /\ n \notin names
    /\ Get(c, n, k)
Sender(h, c) == c \in DOMAIN chan /\ Declare(h, chan[c].n, chan[c].k)
(* Releasing a channel, or dropping a lease of it.                          *)
Release(c) == c \in DOMAIN chan /\ Delete(chan[c].n)

PublishTo(q, m) ==
    /\ m \notin DOMAIN born
    /\ born' = Put(born, m, q)
    /\ IF kind[q] = "once" \/ (kind[q] = "bcast" /\ DOMAIN Inbox(q) = {})
         THEN msgs' = Put(msgs, q, Append(Msgs(q), m)) /\ UNCHANGED inbox
         ELSE inbox' = Put(inbox, q, [s \in DOMAIN Inbox(q) |-> Append(Inbox(q)[s], m)]) /\ UNCHANGED msgs
    /\ UNCHANGED <<current, kind, handle, chan, consumer, idle, names, taken>>
Publish(h, m) == h \in DOMAIN handle /\ PublishTo(handle[h], m)

Attach(c, q, s) ==
    /\ consumer' = Put(consumer, c, [q |-> q, s |-> s])
    /\ idle' = idle \ {c}
    /\ IF kind'[q] = "once" \/ s \in DOMAIN Inbox(q) THEN UNCHANGED <<msgs, inbox>>
       ELSE inbox' = Put(inbox, q, Put(Inbox(q), s, Msgs(q))) /\ msgs' = Put(msgs, q, <<>>)
Subscribe(c, h, s) ==
    /\ h \in DOMAIN handle /\ UNCHANGED kind
    /\ Attach(c, handle[h], s)
    /\ UNCHANGED <<current, handle, chan, names, born, taken>>
(* A receiver of a channel is a consumer under a name of its own.           *)
Receiver(c, ch, s) ==
    /\ ch \in DOMAIN chan
    /\ Denote(chan[ch].n, chan[ch].k)
    /\ Attach(c, QueueOf(chan[ch].n), s)
    /\ UNCHANGED <<handle, chan, born, taken>>

Pending(c) == LET x == consumer[c] IN IF kind[x.q] = "once" THEN Msgs(x.q) ELSE Inbox(x.q)[x.s]
Take(c, m) ==
    /\ c \in DOMAIN consumer
    /\ Pending(c) # <<>> /\ m = Head(Pending(c))
    /\ LET x == consumer[c] IN
         IF kind[x.q] = "once" THEN msgs' = Put(msgs, x.q, Tail(Msgs(x.q))) /\ UNCHANGED inbox
         ELSE inbox' = Put(inbox, x.q, Put(Inbox(x.q), x.s, Tail(Inbox(x.q)[x.s]))) /\ UNCHANGED msgs
    /\ idle' = idle \ {c}
    /\ taken' = Append(taken, <<c, m>>)
    /\ UNCHANGED <<current, kind, handle, chan, consumer, names, born>>
(* What is there may be on its way to a consumer that was waiting already.  *)
FindNothing(c) ==
    /\ c \in DOMAIN consumer
    /\ \/ Pending(c) = <<>>
       \/ \E d \in idle \ {c} : consumer[d].q = consumer[c].q
                                /\ (kind[consumer[c].q] = "once" \/ consumer[d].s = consumer[c].s)
    /\ idle' = idle \cup {c}
    /\ UNCHANGED <<current, kind, msgs, inbox, handle, chan, consumer, names, born, taken>>
DropConsumer(c) ==
    /\ c \in DOMAIN consumer
    /\ consumer' = [x \in DOMAIN consumer \ {c} |-> consumer[x]]
    /\ idle' = idle \ {c}
    /\ UNCHANGED <<current, kind, msgs, inbox, handle, chan, names, born, taken>>

(* Everything that somebody could still take has been taken.                *)
Drained == \A c \in DOMAIN consumer : Pending(c) = <<>>

-----------------------------------------------------------------------------
(* For checking the contract itself.                                        *)
Sym == Permutations(Names)
Hs == 1..2
Ms == 1..2
Cs == 1..2
Chs == {1}
Next ==
    \/ \E n \in Names, k \in Kinds : \/ \E h \in Hs : h \notin DOMAIN handle /\ Declare(h, n, k)
                                     \/ \E c \in Chs : c \notin DOMAIN chan /\ (Get(c, n, k) \/ Issue(c, n, k))
    \/ \E n \in Names : Delete(n)
    \/ \E c \in Chs : Release(c) \/ \E h \in Hs : h \notin DOMAIN handle /\ Sender(h, c)
    \/ \E h \in Hs, m \in Ms : Publish(h, m)
    \/ \E c \in Cs, s \in {"s", "r"} : c \notin DOMAIN consumer /\ (\E h \in Hs : Subscribe(c, h, s) \/ \E ch \in Chs : Receiver(c, ch, s))
    \/ \E c \in Cs : FindNothing(c) \/ DropConsumer(c) \/ \E m \in Ms : Take(c, m)
Few == Cardinality(DOMAIN handle) + Cardinality(DOMAIN chan) + Cardinality(DOMAIN consumer) <= MaxO /\ Len(taken) <= 2
Spec == Init /\ [][Next /\ Cardinality(DOMAIN kind') <= MaxQ]_vars

(* Different names, and successive queues of one name, share nothing.       *)
NoCrossTalk ==
    [][\A c \in DOMAIN consumer : Len(taken') > Len(taken) /\ taken'[Len(taken')][1] = c
            => born[taken'[Len(taken')][2]] = consumer[c].q]_vars
OneQueuePerName == \A m, n \in DOMAIN current : m # n /\ current[m] # 0 => current[m] # current[n]
KindIsKept == [][\A q \in DOMAIN kind : kind'[q] = kind[q]]_vars
StartsEmpty == [][\A q \in DOMAIN kind' \ DOMAIN kind : q \notin {born[m] : m \in DOMAIN born}]_vars
=============================================================================

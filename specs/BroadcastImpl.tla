--------------------------- MODULE BroadcastImpl ---------------------------
(* The mechanism of the in-memory broadcast queue, one action per step that *)
(* another thread can observe.  A publish takes a number, looks whether     *)
(* there are consumers, appends to the history if not, then visits the      *)
(* consumers one by one.  Subscribing a new name locks its entry, drains    *)
(* the history, and inserts the entry.  Each consumer remembers the numbers *)
(* it has seen.  Refines Broadcast for Defect = "none".                     *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Names, Messages, Publishers, Modes, Defect

VARIABLES mode, pc, todo, must, sent, history, locked, drained, consumers, msgs, seen, taken, joined
vars == <<mode, pc, todo, must, sent, history, locked, drained, consumers, msgs, seen, taken, joined>>

Init ==
    /\ mode \in Modes
    /\ pc = [m \in Messages |-> "idle"] /\ todo = [m \in Messages |-> {}] /\ must = [m \in Messages |-> {}]
    /\ sent = <<>> /\ history = <<>>
    /\ locked = {}      \* names whose entry is being created
    /\ drained = {}     \* of those, the ones that are done with the history
    /\ consumers = {}   \* names visible to publishers
    /\ msgs = [n \in Names |-> <<>>] /\ seen = [n \in Names |-> {}]
    /\ taken = <<>> /\ joined = {}

Busy(p) == \E k \in 1..Len(sent) : sent[k][1] = p /\ pc[sent[k][2]] \notin {"idle", "done"}
Start(p, m) ==
    /\ pc[m] = "idle" /\ ~Busy(p)
    /\ pc' = [pc EXCEPT ![m] = "numbered"]
    /\ sent' = Append(sent, <<p, m>>)
    /\ must' = [must EXCEPT ![m] = joined]
    /\ UNCHANGED <<mode, todo, history, locked, drained, consumers, msgs, seen, taken, joined>>

(* Looking at the map of consumers waits for entries being created.         *)
Check(m) ==
    /\ pc[m] = "numbered" /\ (locked = {} \/ Defect = "insert_first")
    /\ pc' = [pc EXCEPT ![m] = IF mode = "persistent" /\ (consumers = {} \/ Defect = "always_retain")
                               THEN "unheard" ELSE "visiting"]
    /\ todo' = [todo EXCEPT ![m] = Names]
    /\ UNCHANGED <<mode, must, sent, history, locked, drained, consumers, msgs, seen, taken, joined>>

Remember(m) ==
    /\ pc[m] = "unheard"
    /\ history' = Append(history, m)
    /\ pc' = [pc EXCEPT ![m] = "visiting"]
    /\ todo' = [todo EXCEPT ![m] = IF Defect = "retain_returns" THEN {} ELSE @]
    /\ UNCHANGED <<mode, must, sent, locked, drained, consumers, msgs, seen, taken, joined>>

Visit(m, n) ==
    /\ pc[m] = "visiting" /\ n \in todo[m] /\ (n \notin locked \/ Defect = "insert_first")
    /\ todo' = [todo EXCEPT ![m] = @ \ {n}]
    /\ IF n \in consumers /\ (m \notin seen[n] \/ Defect = "no_seen")
         THEN /\ msgs' = [msgs EXCEPT ![n] = Append(@, m)]
              /\ seen' = [seen EXCEPT ![n] = @ \cup {m}]
         ELSE UNCHANGED <<msgs, seen>>
    /\ UNCHANGED <<mode, pc, must, sent, history, locked, drained, consumers, taken, joined>>

End(m) ==
    /\ pc[m] = "visiting" /\ todo[m] = {}
    /\ pc' = [pc EXCEPT ![m] = "done"]
    /\ UNCHANGED <<mode, todo, must, sent, history, locked, drained, consumers, msgs, seen, taken, joined>>

Lock(n) ==
    /\ n \notin joined /\ n \notin locked
    /\ locked' = locked \cup {n}
    /\ consumers' = IF Defect = "insert_first" THEN consumers \cup {n} ELSE consumers
    /\ UNCHANGED <<mode, pc, todo, must, sent, history, drained, msgs, seen, taken, joined>>

Drain(n) ==
    /\ n \in locked \ drained
    /\ IF mode = "persistent" /\ history # <<>>
         THEN /\ history' = IF Defect = "history_kept" /\ Len(history) = 1 THEN history ELSE Tail(history)
              /\ drained' = IF Defect = "history_kept" /\ Len(history) = 1 THEN drained \cup {n} ELSE drained
              /\ msgs' = [msgs EXCEPT ![n] = Append(@, Head(history))]
              /\ seen' = [seen EXCEPT ![n] = @ \cup {Head(history)}]
         ELSE drained' = drained \cup {n} /\ UNCHANGED <<history, msgs, seen>>
    /\ UNCHANGED <<mode, pc, todo, must, sent, locked, consumers, taken, joined>>

Insert(n) ==
    /\ n \in drained
    /\ consumers' = consumers \cup {n}
    /\ locked' = locked \ {n} /\ drained' = drained \ {n}
    /\ joined' = joined \cup {n}
    /\ UNCHANGED <<mode, pc, todo, must, sent, history, msgs, seen, taken>>

Take(n) ==
    /\ n \in joined /\ msgs[n] # <<>>
    /\ taken' = Append(taken, <<n, Head(msgs[n])>>)
    /\ msgs' = [msgs EXCEPT ![n] = Tail(@)]
    /\ UNCHANGED <<mode, pc, todo, must, sent, history, locked, drained, consumers, seen, joined>>

Next == \/ \E m \in Messages : Check(m) \/ Remember(m) \/ End(m) \/ \E n \in Names : Visit(m, n)
        \/ \E m \in Messages, p \in Publishers : Start(p, m)
        \/ \E n \in Names : Lock(n) \/ Drain(n) \/ Insert(n) \/ Take(n)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* One handle per name, called like the name, that never waits.             *)
Active == {m \in Messages : pc[m] \notin {"idle", "done"}}
Contract == INSTANCE Broadcast WITH
    Handles <- Names,
    subs <- joined,
    avail <- msgs, got <- seen, retained <- history,
    active <- {[m |-> m, must |-> must[m]] : m \in Active},
    joining <- {<<n, n>> : n \in locked},
    handle <- {<<n, n>> : n \in joined},
    looking <- {}, waiting <- {}, woken <- {}
Refines == Contract!Spec
=============================================================================

-------------------------- MODULE ExactlyOnceImpl --------------------------
(* The mechanism of the in-memory exactly-once queue: a FIFO of messages    *)
(* and a fair counting semaphore.  Publishing pushes, then adds a permit;   *)
(* polling acquires a permit (or queues for one), then pops (`holding` in   *)
(* between).                                                                *)
(* Refines ExactlyOnce for Defect = "none"; the other values reproduce      *)
(* plausible mistakes and must not.                                         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Consumers, Messages, Defect

VARIABLES msgs, pc, permits, waitq, assigned, holding, open, taken
vars == <<msgs, pc, permits, waitq, assigned, holding, open, taken>>

Range(s) == {s[i] : i \in 1..Len(s)}
Without(s, c) == SelectSeq(s, LAMBDA x : x # c)

Init ==
    /\ msgs = <<>> /\ pc = [m \in Messages |-> "idle"] /\ permits = 0
    /\ waitq = <<>> /\ assigned = {} /\ holding = {} /\ open = {} /\ taken = <<>>

Declare(c) ==
    /\ c \notin open /\ open' = open \cup {c}
    /\ UNCHANGED <<msgs, pc, permits, waitq, assigned, holding, taken>>

Begin(m) ==
    /\ pc[m] = "idle" /\ pc' = [pc EXCEPT ![m] = "begun"]
    /\ UNCHANGED <<msgs, permits, waitq, assigned, holding, open, taken>>

(* Give a permit to the first in line, or bank it.                          *)
AddPermit(q, a) ==
    IF q # <<>> THEN /\ waitq' = Tail(q) /\ assigned' = a \cup {Head(q)} /\ UNCHANGED permits
                ELSE /\ waitq' = q /\ assigned' = a /\ permits' = permits + 1

Push(m) ==
    /\ pc[m] = IF Defect = "permit_first" THEN "permitted" ELSE "begun"
    /\ pc' = [pc EXCEPT ![m] = IF Defect = "permit_first" THEN "done" ELSE "pushed"]
    /\ msgs' = Append(msgs, m)
    /\ UNCHANGED <<permits, waitq, assigned, holding, open, taken>>

Permit(m) ==
    /\ pc[m] = IF Defect = "permit_first" THEN "begun" ELSE "pushed"
    /\ pc' = [pc EXCEPT ![m] = IF Defect = "permit_first" THEN "permitted" ELSE "done"]
    /\ IF Defect = "no_permit" THEN UNCHANGED <<waitq, assigned, permits>> ELSE AddPermit(waitq, assigned)
    /\ UNCHANGED <<msgs, holding, open, taken>>

(* The poll of a consumer: it gets a permit, or is (or stays) in line.      *)
Acquire(c) ==
    /\ c \in open \ holding
    /\ UNCHANGED <<msgs, pc, open, taken>>
    /\ IF c \in assigned
         THEN assigned' = assigned \ {c} /\ holding' = holding \cup {c} /\ UNCHANGED <<waitq, permits>>
       ELSE IF c \in Range(waitq)
         THEN UNCHANGED <<waitq, assigned, permits, holding>>
       ELSE IF permits > 0
         THEN permits' = permits - 1 /\ holding' = holding \cup {c} /\ UNCHANGED <<waitq, assigned>>
       ELSE waitq' = Append(waitq, c) /\ UNCHANGED <<assigned, permits, holding>>

Pop(c) ==
    /\ c \in holding
    /\ holding' = holding \ {c}
    /\ taken' = Append(taken, <<c, IF msgs = <<>> THEN "nothing" ELSE Head(msgs)>>)
    /\ msgs' = IF msgs = <<>> THEN msgs ELSE Tail(msgs)
    /\ UNCHANGED <<pc, permits, waitq, assigned, open>>

Drop(c) ==
    /\ c \in open \ holding /\ open' = open \ {c}
    /\ IF c \in assigned /\ Defect # "drop_loses_permit"
         THEN AddPermit(waitq, assigned \ {c})
         ELSE /\ waitq' = Without(waitq, c) /\ assigned' = assigned \ {c}
              /\ UNCHANGED permits
    /\ UNCHANGED <<msgs, pc, holding, taken>>

Next == \/ \E m \in Messages : Begin(m) \/ Push(m) \/ Permit(m)
        \/ \E c \in Consumers : Declare(c) \/ Acquire(c) \/ Pop(c) \/ Drop(c)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Contract == INSTANCE ExactlyOnce WITH
    queue <- msgs,
    started <- {m \in Messages : pc[m] \in {"begun", "permitted"}},
    settling <- {m \in Messages : pc[m] = "pushed"},
    looking <- holding,
    waiting <- Range(waitq) \cup assigned,
    woken <- assigned
Refines == Contract!Spec
PermitMeansMessage == permits + Cardinality(assigned) + Cardinality(holding) <= Len(msgs)
=============================================================================

------------------------------- MODULE Broker -------------------------------
(* Tasks and results on a broker, and who takes them (C24): who holds a      *)
(* message, what the operation of a task is doing, how it was settled.      *)
EXTENDS Naturals, FiniteSets, TLC
VARIABLES kind,    \* message -> the task bus it is a task on, or "result"
          where,   \* message -> "queued", "done", "gone" or the consumer holding it
          run,     \* <<message, consumer>> -> state of the operation run for it there
          settled, \* deliveries settled
          lost,    \* deliveries whose connection was lost
          how,     \* delivery -> how it was settled
          dead,    \* tasks of jobs that have been aborted
          trouble  \* an operation has failed: tasks may be rejected without being run
vars == <<kind, where, run, settled, lost, how, dead, trouble>>
Init == kind = <<>> /\ where = <<>> /\ run = <<>> /\ settled = {} /\ lost = {} /\ how = <<>> /\ dead = {} /\ trouble = FALSE
NoOne == {"queued", "done", "gone"}
Held == {m \in DOMAIN where : where[m] \notin NoOne}
Pub(m, k) == /\ m \notin DOMAIN where /\ where' = (m :> "queued") @@ where /\ kind' = (m :> k) @@ kind
             /\ UNCHANGED <<run, settled, lost, how, dead, trouble>>
Deliver(m, c) == /\ m \in DOMAIN where /\ where[m] = "queued" /\ <<m, c>> \notin DOMAIN run
                 /\ where' = [where EXCEPT ![m] = c] /\ run' = (<<m, c>> :> "no") @@ run
                 /\ UNCHANGED <<kind, settled, lost, how, dead, trouble>>
Idle(c) == \A d \in DOMAIN run \ settled : d[2] = c => run[d] # "running"
(* A task given up may be rejected, and its operation go on, or only begin. *)
GivenUp(m) == trouble \/ m \in dead
Open(d) == IF d \in settled THEN how[d] = "nack" /\ GivenUp(d[1]) ELSE TRUE
(* Operations run for deliveries; also for one whose connection is lost.    *)
Start(m) == /\ \E d \in DOMAIN run : /\ d[1] = m /\ run[d] = "no" /\ kind[m] # "result" /\ Open(d) /\ Idle(d[2])
                                     /\ run' = [run EXCEPT ![d] = "running"]
            /\ UNCHANGED <<kind, where, settled, lost, how, dead, trouble>>
Finish(m, ok) == /\ \E d \in DOMAIN run : /\ d[1] = m /\ run[d] = "running"
                                          /\ run' = [run EXCEPT ![d] = IF ok THEN "ok" ELSE "failed"]
                 /\ trouble' = (trouble \/ ~ok) /\ UNCHANGED <<kind, where, settled, lost, how, dead>>
Settle(m, c, h) == /\ m \in DOMAIN where /\ where[m] = c /\ <<m, c>> \notin settled
                   /\ where' = [where EXCEPT ![m] = "done"] /\ settled' = settled \cup {<<m, c>>}
                   /\ how' = (<<m, c>> :> h) @@ how /\ UNCHANGED <<kind, run, lost, dead, trouble>>
Ack(m, c) == <<m, c>> \in DOMAIN run /\ (kind[m] = "result" \/ run[<<m, c>>] = "ok") /\ Settle(m, c, "ack")
Nack(m, c) == <<m, c>> \in DOMAIN run /\ kind[m] # "result" /\ (run[<<m, c>>] = "failed" \/ GivenUp(m)) /\ Settle(m, c, "nack")
Abort(ms) == dead' = dead \cup ms /\ UNCHANGED <<kind, where, run, settled, lost, how, trouble>>
(* The connection of the holder is lost.                                    *)
Back(m, c) == /\ m \in DOMAIN where /\ where[m] = c /\ where' = [where EXCEPT ![m] = "queued"]
              /\ lost' = lost \cup {<<m, c>>} /\ UNCHANGED <<kind, run, settled, how, dead, trouble>>
Deleted(ms) == /\ where' = [m \in DOMAIN where |-> IF m \in ms THEN "gone" ELSE where[m]]
               /\ UNCHANGED <<kind, run, settled, lost, how, dead, trouble>>
(* Nothing more happens: what has been run has been settled, and unless     *)
(* something failed everything has been run.  n: task bus -> workers left.  *)
Clear(m, n) == IF kind[m] = "result" THEN where[m] \in NoOne ELSE n[kind[m]] > 0 => where[m] \in {"done", "gone"}
AtRest(n) == /\ \A d \in DOMAIN run : run[d] \in {"running", "ok", "failed"} /\ d \notin lost => d \in settled
             /\ trouble \/ \A m \in DOMAIN where : Clear(m, n)
Quiescent(n) == AtRest(n) /\ UNCHANGED vars
----------------------------------------------------------------------------
(* What follows from this.                                                  *)
AckedRan == \A d \in DOMAIN how : kind[d[1]] # "result" /\ how[d] = "ack" => run[d] = "ok"
FailedRejected == \A d \in DOMAIN how : run[d] = "failed" => how[d] = "nack"
SettledOnce == \A d, e \in settled : d[1] = e[1] => d = e
OneHolder == \A d \in DOMAIN run \ (settled \cup lost) : where[d[1]] = d[2]
=============================================================================

----------------------------- MODULE BrokerImpl -----------------------------
(* Worker loops on a broker: W workers take tasks (one at a time: prefetch  *)
(* 1), run them, settle them and publish results, in either order; a task   *)
(* may fail, which tells all workers to stop; connections may be lost.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, W, Cuts, Fails, Defect
Tasks == 1..N
(* A worker's consumer: reconnecting makes another one.                     *)
VARIABLES q, todo, chan, pc, cur, ep, stopped, cuts, kind, where, run, settled, lost, how, dead, trouble, refused
C == INSTANCE Broker
vars == <<q, todo, chan, pc, cur, ep, stopped, cuts, kind, where, run, settled, lost, how, dead, trouble, refused>>
contract == <<kind, where, run, settled, lost, how, dead, trouble>>
Name(w, k) == ToString(<<w, k>>)
Con(w) == Name(w, ep[w])
Init == /\ C!Init /\ q = <<>> /\ todo = Tasks /\ chan = [w \in 1..W |-> {}] /\ pc = [w \in 1..W |-> "idle"]
        /\ cur = [w \in 1..W |-> 0] /\ ep = [w \in 1..W |-> 0] /\ stopped = FALSE /\ cuts = 0 /\ refused = FALSE
Alive(w) == ep[w] = 0
Publish == \E m \in todo : /\ todo' = todo \ {m} /\ q' = Append(q, m) /\ C!Pub(m, "bus")
                           /\ UNCHANGED <<chan, pc, cur, ep, stopped, cuts, refused>>
(* The broker hands a message to a consumer that holds none.                *)
Holding(w) == {m \in DOMAIN where : where[m] = Con(w)}
Deliver(w) == /\ q # <<>> /\ Alive(w) /\ pc[w] # "over" /\ Holding(w) = {}
              /\ chan' = [chan EXCEPT ![w] = {Head(q)}] /\ q' = Tail(q) /\ C!Deliver(Head(q), Con(w))
              /\ UNCHANGED <<todo, pc, cur, ep, stopped, cuts, refused>>
Go(w, s) == pc' = [pc EXCEPT ![w] = s]
Settle(w, h) == LET m == cur[w] d == <<m, Con(w)>> IN
    IF ~Alive(w) THEN UNCHANGED contract /\ UNCHANGED <<q, refused>>
    ELSE IF where[m] # Con(w) THEN refused' = TRUE /\ UNCHANGED contract /\ UNCHANGED q
    ELSE IF h = "requeue" THEN /\ where' = [where EXCEPT ![m] = "queued"] /\ q' = <<m>> \o q
                               /\ UNCHANGED <<kind, run, settled, lost, how, dead, trouble, refused>>
    ELSE /\ where' = [where EXCEPT ![m] = "done"] /\ settled' = settled \cup {d} /\ how' = (d :> h) @@ how
         /\ UNCHANGED <<kind, run, lost, dead, trouble, q, refused>>
Take(w) == /\ pc[w] = "idle" /\ chan[w] # {}
           /\ \E m \in chan[w] : cur' = [cur EXCEPT ![w] = m]
           /\ chan' = [chan EXCEPT ![w] = {}]
           /\ Go(w, CASE Defect = "ack_early" -> "early" [] stopped \/ cur'[w] \in dead -> "skip" [] OTHER -> "start")
           /\ UNCHANGED <<q, todo, ep, stopped, cuts, refused>> /\ UNCHANGED contract
Early(w) == /\ pc[w] = "early" /\ Settle(w, "ack") /\ Go(w, "start") /\ UNCHANGED <<todo, chan, cur, ep, stopped, cuts>>
(* A terminated job's task is rejected, not run.                            *)
Skip(w) == /\ pc[w] = "skip" /\ Go(w, IF stopped THEN "over" ELSE "idle")
           /\ IF Defect = "skip_unsettled" THEN UNCHANGED contract /\ UNCHANGED <<q, refused>> ELSE Settle(w, "nack")
           /\ UNCHANGED <<todo, chan, cur, ep, stopped, cuts>>
RunStart(w) == /\ pc[w] = "start" /\ Go(w, "running")
               /\ run' = [run EXCEPT ![<<cur[w], Name(w, 0)>>] = "running"]
               /\ UNCHANGED <<q, todo, chan, cur, ep, stopped, cuts, refused, kind, where, settled, lost, how, dead, trouble>>
RunEnd(w, ok) == /\ pc[w] = "running" /\ (Fails \/ ok)
                 /\ run' = [run EXCEPT ![<<cur[w], Name(w, 0)>>] = IF ok THEN "ok" ELSE "failed"]
                 /\ trouble' = (trouble \/ ~ok) /\ stopped' = (stopped \/ ~ok)
                 /\ Go(w, IF ok THEN "ack" ELSE "nack")
                 /\ UNCHANGED <<q, todo, chan, cur, ep, cuts, refused, kind, where, settled, lost, how, dead>>
AckIt(w) == /\ pc[w] = "ack" /\ Go(w, IF Defect = "ack_twice" THEN "again" ELSE "idle")
            /\ IF Defect = "ack_early" THEN UNCHANGED contract /\ UNCHANGED <<q, refused>> ELSE Settle(w, "ack")
            /\ UNCHANGED <<todo, chan, cur, ep, stopped, cuts>>
Again(w) == /\ pc[w] = "again" /\ Go(w, "idle") /\ Settle(w, "ack") /\ UNCHANGED <<todo, chan, cur, ep, stopped, cuts>>
NackIt(w) == /\ pc[w] = "nack" /\ Go(w, "idle")
             /\ CASE Defect = "failed_unsettled" -> UNCHANGED contract /\ UNCHANGED <<q, refused>>
                  [] Defect = "failed_acked" -> Settle(w, "ack")
                  [] Defect = "failed_requeued" -> Settle(w, "requeue")
                  [] OTHER -> Settle(w, "nack")
             /\ UNCHANGED <<todo, chan, cur, ep, stopped, cuts>>
(* A worker that learns of a failure elsewhere gives up what it is running, *)
(* rejects it and takes nothing more.                                       *)
Abandon(w) == /\ stopped /\ pc[w] = "running" /\ Alive(w) /\ Go(w, "over") /\ Settle(w, "nack")
              /\ UNCHANGED <<todo, chan, cur, ep, stopped, cuts>>
(* A job is aborted: here, a job is a task.                                 *)
Abort == /\ dead = {} /\ (\E m \in Tasks : C!Abort({m})) /\ UNCHANGED <<q, todo, chan, pc, cur, ep, stopped, cuts, refused>>
Desert(w) == /\ cur[w] \in dead /\ pc[w] = "running" /\ Go(w, "idle") /\ Settle(w, "nack")
             /\ UNCHANGED <<todo, chan, cur, ep, stopped, cuts>>
Cut(w) == /\ cuts < Cuts /\ Alive(w) /\ cuts' = cuts + 1 /\ ep' = [ep EXCEPT ![w] = 1]
          /\ LET b == Holding(w) IN
             /\ where' = [m \in DOMAIN where |-> IF m \in b THEN "queued" ELSE where[m]]
             /\ lost' = lost \cup {<<m, Con(w)>> : m \in b}
             /\ q' = IF b = {} THEN q ELSE <<CHOOSE m \in b : TRUE>> \o q
          /\ UNCHANGED <<todo, chan, pc, cur, stopped, kind, run, settled, how, dead, trouble, refused>>
Next == Publish \/ Abort \/ \E w \in 1..W : \/ Deliver(w) \/ Take(w) \/ Early(w) \/ Skip(w) \/ RunStart(w) \/ (\E ok \in BOOLEAN : RunEnd(w, ok))
                                   \/ AckIt(w) \/ Again(w) \/ NackIt(w) \/ Abandon(w) \/ Desert(w) \/ Cut(w)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Publish) /\ \A w \in 1..W : WF_vars(Deliver(w)) /\ WF_vars(Take(w) \/ Early(w) \/ Skip(w) \/ RunStart(w)) /\ WF_vars(RunEnd(w, TRUE)) /\ WF_vars(AckIt(w) \/ Again(w) \/ NackIt(w))
(* Every step is one of the contract.                                       *)
Step == \/ \E m \in Tasks : \/ C!Pub(m, "bus") \/ C!Abort({m}) \/ C!Start(m) \/ (\E ok \in BOOLEAN : C!Finish(m, ok))
                            \/ \E w \in 1..W, k \in 0..1 : C!Deliver(m, Name(w, k)) \/ C!Ack(m, Name(w, k)) \/ C!Nack(m, Name(w, k)) \/ C!Back(m, Name(w, k))
Contract == [][(Step)]_contract
NotRefused == ~refused
Stuck == ~ENABLED Next => C!AtRest([bus |-> Cardinality({w \in 1..W : Alive(w) /\ pc[w] # "over"})])
Inv == NotRefused /\ Stuck /\ C!AckedRan /\ C!FailedRejected /\ C!SettledOnce /\ C!OneHolder
AllDone == <>(trouble \/ cuts > 0 \/ \A m \in Tasks : m \in DOMAIN where /\ where[m] = "done")
=============================================================================

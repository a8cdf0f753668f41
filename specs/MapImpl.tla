------------------------------- MODULE MapImpl -------------------------------
(* The mechanism of the map over a stream, refining Pipeline: one half      *)
(* reads inputs and publishes a task for each, a bounded number at a time,  *)
(* and closes the sending end when all have been; the other half passes on  *)
(* the results, acknowledging each, until the channel is closed with        *)
(* nothing pending.  The output is the merge of the errors of the former    *)
(* with the latter.                                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, Limit, Faults, Defect
VARIABLES inp, ended, inerr,
          sending,    \* inputs whose task is being published
          out, done,  \* tasks with the workers, and all tasks
          results,    \* results not passed on yet (+ 100: errors)
          pending,    \* published and not acknowledged
          sender,     \* "open", "failed" (its error not reported yet), "closed"
          errs, outs, outerrs, over
vars == <<inp, ended, inerr, sending, out, done, results, pending, sender, errs, outs, outerrs, over>>
Init == /\ inp = {} /\ ended = FALSE /\ inerr = FALSE /\ sending = {} /\ out = {} /\ done = {} /\ results = {}
        /\ pending = 0 /\ sender = "open" /\ errs = {} /\ outs = {} /\ outerrs = {} /\ over = "no"
Reading == over = "no" /\ sender = "open" /\ ~ended /\ Cardinality(sending) < Limit
Read(k) ==
    /\ Reading /\ k \notin inp
    /\ inp' = inp \cup {k} /\ sending' = sending \cup {k}
    /\ UNCHANGED <<ended, inerr, out, done, results, pending, sender, errs, outs, outerrs, over>>
ReadEnd ==
    /\ Reading /\ inp = 0..Cardinality(inp) - 1 /\ ended' = TRUE
    /\ UNCHANGED <<inp, inerr, sending, out, done, results, pending, sender, errs, outs, outerrs, over>>
ReadError ==
    /\ Faults /\ Reading /\ inerr' = TRUE /\ errs' = errs \cup {"in"}
    /\ sender' = IF Defect = "error_lost" THEN "closed" ELSE "failed"
    /\ sending' = {}                          \* publishes under way are abandoned
    /\ UNCHANGED <<inp, ended, out, done, results, pending, outs, outerrs, over>>
Publish(k) ==
    /\ over = "no" /\ k \in sending /\ sending' = sending \ {k}
    /\ out' = out \cup {k} /\ done' = done \cup {k} /\ pending' = pending + 1
    /\ UNCHANGED <<inp, ended, inerr, results, sender, errs, outs, outerrs, over>>
Close ==
    /\ over = "no" /\ sender = "open" /\ ended /\ (sending = {} \/ Defect = "close_early")
    /\ sender' = "closed"
    /\ sending' = IF Defect = "close_early" THEN {} ELSE sending
    /\ UNCHANGED <<inp, ended, inerr, out, done, results, pending, errs, outs, outerrs, over>>
ReportInput ==
    /\ over = "no" /\ sender = "failed" /\ sender' = "closed" /\ outerrs' = outerrs \cup {"in"}
    /\ UNCHANGED <<inp, ended, inerr, sending, out, done, results, pending, errs, outs, over>>
Succeed(k) ==
    /\ k \in out /\ out' = out \ {k} /\ results' = results \cup {k}
    /\ UNCHANGED <<inp, ended, inerr, sending, done, pending, sender, errs, outs, outerrs, over>>
Err(k) == "task" \o ToString(k)
Fails(k) ==
    /\ Faults /\ k \in out /\ out' = out \ {k} /\ results' = results \cup {100 + k}
    /\ errs' = IF over = "no" THEN errs \cup {Err(k)} ELSE errs
    /\ UNCHANGED <<inp, ended, inerr, sending, done, pending, sender, outs, outerrs, over>>
Pass(r) ==
    /\ over = "no" /\ r \in results /\ results' = results \ {r} /\ pending' = pending - 1
    /\ IF r >= 100 THEN outerrs' = (IF Defect = "error_dropped" THEN outerrs ELSE outerrs \cup {Err(r - 100)}) /\ UNCHANGED outs
       ELSE outs' = outs \cup {r} /\ UNCHANGED outerrs
    /\ UNCHANGED <<inp, ended, inerr, sending, out, done, sender, errs, over>>
End ==
    /\ over = "no" /\ sender = "closed"
    /\ CASE Defect = "end_on_close" -> TRUE
         [] Defect = "end_when_drained" -> results = {}
         [] OTHER -> pending = 0
    /\ over' = "end"
    /\ UNCHANGED <<inp, ended, inerr, sending, out, done, results, pending, sender, errs, outs, outerrs>>
Internal == Close \/ ReportInput \/ End \/ (\E k \in sending : Publish(k)) \/ (\E r \in results : Pass(r))
Next == (\E k \in 0..N - 1 : Read(k)) \/ ReadEnd \/ ReadError \/ Internal \/ (\E k \in out : Succeed(k) \/ Fails(k))
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Internal) /\ WF_vars(\E k \in out : Succeed(k))
cfg == [fs |-> <<"f">>, end |-> "stream", bad |-> <<>>, tag |-> ""]
P == INSTANCE Pipeline WITH
        tasks <- [j \in done |-> [s |-> 1, lo |-> j, hi |-> j, st |-> IF j \in out THEN "out" ELSE "done"]],
        (* inputs whose publish was abandoned stay in avail[0] *)
        avail <- [s \in 0..6 |-> CASE s = 0 -> inp \ done [] s = 1 -> {r \in results : r < 100} [] OTHER -> {}],
        pieces <- {}, Null <- 0
V(k) == P!Value(cfg, 0, k, k)
W(k) == P!Value(cfg, 1, k, k)
Ks == 0..N - 1
Contract ==
    [][ \/ \E k \in Ks : \/ P!Input(cfg, k) \/ P!MapTask(cfg, k, "f", V(k)) \/ P!Result(cfg, k, W(k))
                         \/ P!Failure(k, Err(k)) \/ P!Out(cfg, k, W(k)) \/ P!OutError(cfg, Err(k))
        \/ P!InputEnd \/ P!InputError("in") \/ P!OutError(cfg, "in") \/ P!OutEnd(cfg) ]_P!vars
Prompt == ENABLED Internal \/ P!Quiet(cfg)
Completes == ended ~> over # "no"
=============================================================================

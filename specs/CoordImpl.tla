----------------------------- MODULE CoordImpl -----------------------------
(* The mechanism of the coordinated channel: a counter of pending sends, a  *)
(* closed flag, the waker of the task that polled last, and in every        *)
(* acknowledger the waker of the task its message was yielded to.           *)
(* Refines Coord for Defect = "none".                                       *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Msgs, Tasks, AckOps, Defect

VARIABLES
    closed, count, reg, innerw, ackw, did, \* shared state
    ppc, cpc, apc, rpc,                    \* where publishers, closer, acknowledgements, poll are
    readclosed, task,
    tx, inq, given, begun, acked, acking, may, waiting, woken, ended, sender, cut
vars == <<closed, count, reg, innerw, ackw, did, ppc, cpc, apc, rpc, readclosed, task,
          tx, inq, given, begun, acked, acking, may, waiting, woken, ended, sender, cut>>

Nobody == 0
Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Pub == [m \in {x \in Msgs : ppc[x] \notin {"idle", "done"}} |->
          CASE ppc[m] = "sent" -> "sent" [] ppc[m] = "cancel" -> "failed" [] ppc[m] = "failed" -> "failed"
            [] ppc[m] \in {"late0", "late", "laterefused"} -> "late" [] OTHER -> "called"]
Contract == INSTANCE Coord WITH pub <- Pub, poll <- task

Init ==
    /\ closed = FALSE /\ count = 0 /\ reg = Nobody /\ innerw = Nobody /\ ackw = Empty /\ did = {}
    /\ ppc = [m \in Msgs |-> "idle"] /\ cpc = "idle" /\ apc = Empty /\ rpc = "idle"
    /\ readclosed = FALSE /\ task = Nobody
    /\ tx = {} /\ inq = <<>> /\ given = {} /\ begun = {} /\ acked = {} /\ acking = Empty
    /\ may = FALSE /\ waiting = Nobody /\ woken = {} /\ ended = FALSE /\ sender = "open" /\ cut = FALSE

Wake(x) == IF x = Nobody THEN {} ELSE {x}
Watch == may' = (task # Nobody /\ (may \/ Contract!CouldWait'))
(* Woken by the waker of the stream: it is used up.                         *)
WakeReg == woken' = woken \cup Wake(reg) /\ reg' = Nobody
Sh == <<closed, count, reg, innerw, ackw, did, cut>>
Pc == <<ppc, cpc, apc, rpc, readclosed, task>>
Obs == <<tx, inq, given, begun, acked, acking, waiting, ended, sender>>

(* publishing: count, check, transmit; or cancel                            *)
PStart(m) ==
    /\ ppc[m] = "idle"
    /\ ppc' = [ppc EXCEPT ![m] = IF sender = "closed" THEN "late0" ELSE "called"]
    /\ UNCHANGED <<Sh, cpc, apc, rpc, readclosed, task, Obs, woken>> /\ Watch
PCount(m) ==
    /\ ppc[m] \in {"called", "late0"}
    /\ IF Defect = "check_first" /\ ~closed
         THEN ppc' = [ppc EXCEPT ![m] = "checked"] /\ UNCHANGED count
       ELSE /\ ppc' = [ppc EXCEPT ![m] = IF ppc[m] = "late0" THEN "late" ELSE "counted"]
            /\ count' = count + 1
    /\ UNCHANGED <<cut, closed, reg, innerw, ackw, did, cpc, apc, rpc, readclosed, task, Obs, woken>> /\ Watch
PCheck(m) ==
    /\ \/ ppc[m] \in {"counted", "late"} /\ Defect # "check_first"
       \/ ppc[m] \in {"counted", "late", "checked"} /\ Defect = "check_first"
    /\ IF ppc[m] # "checked" /\ closed
         THEN /\ count' = count - 1
              /\ ppc' = [ppc EXCEPT ![m] = IF ppc[m] = "late" THEN "laterefused" ELSE "refused"]
              /\ IF count = 1 THEN WakeReg ELSE UNCHANGED <<woken, reg>>
         ELSE /\ ppc' = [ppc EXCEPT ![m] = "ready"] /\ UNCHANGED <<woken, reg>>
              /\ count' = IF ppc[m] = "checked" THEN count + 1 ELSE count
    /\ UNCHANGED <<cut, closed, innerw, ackw, did, cpc, apc, rpc, readclosed, task, Obs>> /\ Watch
PSend(m, ok) ==
    /\ ppc[m] = "ready" /\ (ok => ~cut)
    /\ ppc' = [ppc EXCEPT ![m] = IF ok THEN "sent" ELSE "cancel"]
    /\ IF ok THEN /\ tx' = tx \cup {m} /\ inq' = Append(inq, m)
                  /\ woken' = woken \cup Wake(innerw) /\ innerw' = Nobody
             ELSE UNCHANGED <<tx, inq, woken, innerw>>
    /\ UNCHANGED <<cut, closed, count, reg, ackw, did, cpc, apc, rpc, readclosed, task, given, begun, acked, acking, waiting, ended, sender>> /\ Watch
PCancel(m) ==
    /\ ppc[m] = "cancel" /\ ppc' = [ppc EXCEPT ![m] = "failed"]
    /\ IF Defect = "no_cancel" THEN UNCHANGED <<count, woken, reg>>
       ELSE /\ count' = count - 1
            /\ IF count = 1 /\ Defect # "cancel_silent" THEN WakeReg ELSE UNCHANGED <<woken, reg>>
    /\ UNCHANGED <<cut, closed, innerw, ackw, did, cpc, apc, rpc, readclosed, task, Obs>> /\ Watch
PReturn(m) ==
    /\ ppc[m] \in {"sent", "failed", "refused", "laterefused"}
    /\ ppc' = [ppc EXCEPT ![m] = "done"]
    /\ UNCHANGED <<Sh, cpc, apc, rpc, readclosed, task, Obs, woken>> /\ Watch

CStart == /\ cpc = "idle" /\ cpc' = "begun" /\ sender' = "closing"
          /\ UNCHANGED <<Sh, ppc, apc, rpc, readclosed, task, tx, inq, given, begun, acked, acking, waiting, ended, woken>> /\ Watch
CSet == /\ cpc = "begun" /\ closed' = TRUE /\ cpc' = "set"
        /\ UNCHANGED <<cut, count, reg, innerw, ackw, did, ppc, apc, rpc, readclosed, task, Obs, woken>> /\ Watch
CWake == /\ cpc = "set" /\ cpc' = "woke"
         /\ IF Defect = "close_silent" THEN UNCHANGED <<woken, reg>> ELSE WakeReg
         /\ UNCHANGED <<cut, closed, count, innerw, ackw, did, ppc, apc, rpc, readclosed, task, Obs>> /\ Watch
CReturn == /\ cpc = "woke" /\ cpc' = "done" /\ sender' = "closed"
           /\ UNCHANGED <<Sh, ppc, apc, rpc, readclosed, task, tx, inq, given, begun, acked, acking, waiting, ended, woken>> /\ Watch

AStart(k, m) ==
    /\ k \notin DOMAIN acking /\ m \in given
    /\ acking' = Put(acking, k, m) /\ apc' = Put(apc, k, "begun") /\ begun' = begun \cup {m}
    /\ UNCHANGED <<Sh, ppc, cpc, rpc, readclosed, task, tx, inq, given, acked, waiting, ended, sender, woken>> /\ Watch
ASwap(k) ==
    /\ k \in DOMAIN acking /\ apc[k] = "begun"
    /\ did' = did \cup {acking[k]}
    /\ apc' = Put(apc, k, IF acking[k] \in did /\ Defect # "count_twice" THEN "over" ELSE "first")
    /\ UNCHANGED <<cut, closed, count, reg, innerw, ackw, ppc, cpc, rpc, readclosed, task, Obs, woken>> /\ Watch
ADec(k) ==
    /\ k \in DOMAIN acking /\ apc[k] = "first" /\ count > 0
    /\ count' = count - 1
    /\ apc' = Put(apc, k, IF count = 1 THEN "wake1" ELSE "over")
    /\ UNCHANGED <<cut, closed, reg, innerw, ackw, did, ppc, cpc, rpc, readclosed, task, Obs, woken>> /\ Watch
AWake1(k) ==
    /\ k \in DOMAIN acking /\ apc[k] = "wake1" /\ apc' = Put(apc, k, "wake2")
    /\ woken' = woken \cup {ackw[acking[k]]}
    /\ UNCHANGED <<Sh, ppc, cpc, rpc, readclosed, task, Obs>> /\ Watch
AWake2(k) ==
    /\ k \in DOMAIN acking /\ apc[k] = "wake2" /\ apc' = Put(apc, k, "over")
    /\ IF Defect = "ack_wakes_its_own" THEN UNCHANGED <<woken, reg>> ELSE WakeReg
    /\ UNCHANGED <<cut, closed, count, innerw, ackw, did, ppc, cpc, rpc, readclosed, task, Obs>> /\ Watch
AReturn(k) ==
    /\ k \in DOMAIN acking /\ apc[k] = "over"
    /\ acked' = acked \cup {acking[k]} /\ acking' = Without(acking, k) /\ apc' = Without(apc, k)
    /\ UNCHANGED <<Sh, ppc, cpc, rpc, readclosed, task, tx, inq, given, begun, waiting, ended, sender, woken>> /\ Watch

(* polling: the underlying stream, register, read closed, read the counter  *)
RStart(c) ==
    /\ rpc = "idle" /\ rpc' = "begun" /\ task' = c /\ waiting' = Nobody /\ woken' = {}
    /\ may' = Contract!CouldWait
    /\ UNCHANGED <<Sh, ppc, cpc, apc, readclosed, tx, inq, given, begun, acked, acking, ended, sender>>
RInner ==
    /\ rpc = "begun"
    /\ IF inq # <<>>
         THEN /\ ackw' = Put(ackw, Head(inq), task) /\ rpc' = "yield"
              /\ UNCHANGED innerw
         ELSE IF cut THEN rpc' = "over" /\ UNCHANGED <<innerw, ackw>>
         ELSE /\ innerw' = task /\ rpc' = IF Defect = "register_last" THEN "registered" ELSE "pending"
              /\ UNCHANGED ackw
    /\ UNCHANGED <<cut, closed, count, reg, did, ppc, cpc, apc, readclosed, task, Obs, woken>> /\ Watch
RYield ==
    /\ rpc = "yield" /\ rpc' = "idle"
    /\ inq' = Tail(inq) /\ given' = given \cup {Head(inq)}
    /\ task' = Nobody /\ may' = FALSE
    /\ UNCHANGED <<Sh, ppc, cpc, apc, readclosed, tx, begun, acked, acking, waiting, ended, sender, woken>>
RRegister ==
    /\ rpc = "pending" /\ rpc' = "registered" /\ reg' = task
    /\ UNCHANGED <<cut, closed, count, innerw, ackw, did, ppc, cpc, apc, readclosed, task, Obs, woken>> /\ Watch
RClosed ==
    /\ rpc = "registered" /\ rpc' = "read1"
    /\ readclosed' = IF Defect = "count_read_first" THEN (count = 0) ELSE closed
    /\ UNCHANGED <<Sh, ppc, cpc, apc, task, Obs, woken>> /\ Watch
RCount ==
    /\ rpc = "read1"
    /\ rpc' = IF readclosed /\ (IF Defect = "count_read_first" THEN closed ELSE count = 0) THEN "end"
              ELSE IF Defect = "register_last" THEN "reg2" ELSE "wait"
    /\ UNCHANGED <<Sh, ppc, cpc, apc, readclosed, task, Obs, woken>> /\ Watch
RReg2 ==
    /\ rpc = "reg2" /\ rpc' = "wait" /\ reg' = task
    /\ UNCHANGED <<cut, closed, count, innerw, ackw, did, ppc, cpc, apc, readclosed, task, Obs, woken>> /\ Watch
(* The underlying stream has ended.                                         *)
RCutRegister ==
    /\ rpc = "over" /\ rpc' = "over2" /\ reg' = task
    /\ UNCHANGED <<cut, closed, count, innerw, ackw, did, ppc, cpc, apc, readclosed, task, Obs, woken>> /\ Watch
RCutCount ==
    /\ rpc = "over2"
    /\ rpc' = IF count = 0 \/ (Defect = "over_is_over" /\ closed) THEN "end" ELSE "wait"
    /\ UNCHANGED <<Sh, ppc, cpc, apc, readclosed, task, Obs, woken>> /\ Watch
CutOff ==
    /\ ~cut /\ cut' = TRUE
    /\ woken' = woken \cup Wake(innerw) /\ innerw' = Nobody
    /\ UNCHANGED <<closed, count, reg, ackw, did, Pc, Obs, may>>
RResult ==
    /\ rpc \in {"end", "wait"} /\ rpc' = "idle"
    /\ ended' = (ended \/ rpc = "end")
    /\ waiting' = IF rpc = "wait" THEN task ELSE waiting
    /\ task' = Nobody /\ may' = FALSE
    /\ UNCHANGED <<Sh, ppc, cpc, apc, readclosed, tx, inq, given, begun, acked, acking, sender, woken>>

Next ==
    \/ \E m \in Msgs : PStart(m) \/ PCount(m) \/ PCheck(m) \/ PSend(m, TRUE) \/ PSend(m, FALSE) \/ PCancel(m) \/ PReturn(m)
    \/ CStart \/ CSet \/ CWake \/ CReturn
    \/ \E k \in AckOps : (\E m \in Msgs : AStart(k, m)) \/ ASwap(k) \/ ADec(k) \/ AWake1(k) \/ AWake2(k) \/ AReturn(k)
    \/ \E c \in Tasks : RStart(c)
    \/ RInner \/ RYield \/ RRegister \/ RClosed \/ RCount \/ RReg2 \/ RResult \/ RCutRegister \/ RCutCount \/ CutOff
Spec == Init /\ [][Next]_vars
Refines == Contract!Spec
=============================================================================

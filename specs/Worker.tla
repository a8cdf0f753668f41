------------------------------- MODULE Worker -------------------------------
(* Workers, the tasks they take and what they report (C14-C17, C19, C22).   *)
(* Tasks and jobs are numbers.  A task is [job, bad]: a bad one cannot be   *)
(* decoded.  "Quiet" is an observation made when nothing in the system is   *)
(* in motion except operations in progress.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES info,    \* the tasks published
          q,       \* not taken yet
          run,     \* operations in progress
          again,   \* failed transiently, to be attempted again
          att,     \* attempts made
          due, must,   \* succeeded, result not delivered; those whose result must come
          owed,      \* failed fatally, error not delivered: <<task, class>>
          mustE,     \* one of these errors must come
          phase,   \* "open", "telling" (an abort of everything is on its way), "told", "dropped"
          sent, recv, \* jobs whose abort has been sent; has been received by all
          failed,  \* fatal failures of each job: that many workers take no more of it
          room     \* tasks that workers may still take, having been told to stop
vars == <<failed, info, q, run, again, att, due, must, owed, mustE, phase, sent, recv, room>>
Init == /\ failed = [j \in {} |-> 0] /\ info = <<>> /\ q = {} /\ run = {} /\ again = {} /\ att = <<>> /\ due = {} /\ must = {} /\ owed = {} /\ mustE = FALSE
        /\ phase = "open" /\ sent = {} /\ recv = {} /\ room = 0
Job(k) == info[k].job
Failed(j) == IF j \in DOMAIN failed THEN failed[j] ELSE 0
OneMore(j) == (j :> Failed(j) + 1) @@ failed
(* Some worker has not had a fatal failure of the job and is not busy with it. *)
Able(j, W) == Cardinality({k \in run \cup again : Job(k) = j}) < W - Failed(j)
Busy == Cardinality(run \cup again)
Publish(k, job, bad) ==
    /\ k \notin DOMAIN info
    /\ info' = info @@ (k :> [job |-> job, bad |-> bad]) /\ att' = att @@ (k :> 0) /\ q' = IF phase = "dropped" THEN q ELSE q \cup {k}
    /\ UNCHANGED <<failed, run, again, due, must, owed, mustE, phase, sent, recv, room>>
(* One of W workers takes a task and starts its operation.                  *)
Begin(k, a, W) ==
    /\ k \in DOMAIN info /\ a = att[k] + 1
    /\ \/ /\ k \in q /\ ~info[k].bad /\ Job(k) \notin recv /\ Busy < W /\ Able(Job(k), W) /\ (phase \in {"told", "dropped"} => room > 0)
          /\ room' = IF phase \in {"told", "dropped"} THEN room - 1 ELSE room
       \/ k \in again /\ phase # "told" /\ UNCHANGED room
    /\ q' = q \ {k} /\ again' = again \ {k} /\ run' = run \cup {k} /\ att' = [att EXCEPT ![k] = a]
    /\ UNCHANGED <<failed, info, due, must, owed, mustE, phase, sent, recv>>
Stopping == phase \in {"told", "dropped"}
End(k, out) ==
    /\ k \in run /\ run' = run \ {k}
    /\ due' = IF out = "ok" /\ ~Stopping THEN due \cup {k} ELSE due
    (* a worker that is told to stop drops what has just ended *)
    /\ must' = IF out \in {"boom", "panic", "codec"} THEN {} ELSE IF out = "ok" /\ phase = "open" /\ Job(k) \notin sent \cup recv THEN must \cup {k} ELSE must
    /\ again' = IF out = "transient" /\ ~Stopping THEN again \cup {k} ELSE again
    /\ LET fatal == out \in {"boom", "panic", "codec"} IN
        /\ failed' = IF fatal THEN OneMore(Job(k)) ELSE failed
        /\ owed' = IF fatal /\ ~Stopping THEN owed \cup {<<k, out>>} ELSE owed
        /\ mustE' = (mustE \/ (fatal /\ phase = "open"))
        /\ phase' = IF fatal /\ phase = "open" THEN "telling" ELSE phase
    /\ UNCHANGED <<info, q, att, sent, recv, room>>
Result(k, job) ==
    /\ k \in due /\ Job(k) = job /\ due' = due \ {k} /\ must' = must \ {k}
    /\ UNCHANGED <<failed, info, q, run, again, att, owed, mustE, phase, sent, recv, room>>
(* A task that cannot be decoded is taken and fails at once.                *)
TakeBad(k, W) ==
    /\ k \in q /\ info[k].bad /\ Job(k) \notin recv /\ Busy < W /\ Able(Job(k), W) /\ phase # "dropped"
    /\ failed' = OneMore(Job(k))
    /\ q' = q \ {k} /\ owed' = owed \cup {<<k, "codec">>} /\ mustE' = (mustE \/ phase = "open") /\ must' = {}
    /\ phase' = IF phase = "open" THEN "telling" ELSE phase
    /\ UNCHANGED <<info, run, again, att, due, sent, recv, room>>
Error(k, class, job) ==
    /\ <<k, class>> \in owed /\ Job(k) = job /\ owed' = owed \ {<<k, class>>} /\ mustE' = FALSE
    /\ UNCHANGED <<failed, info, q, run, again, att, due, must, phase, sent, recv, room>>
Abort(job) == sent' = sent \cup {job} /\ UNCHANGED <<failed, info, q, run, again, att, due, must, owed, mustE, phase, recv, room>>
AbortAll == /\ phase' = IF phase = "open" THEN "telling" ELSE phase
            /\ must' = {} /\ mustE' = FALSE
            /\ UNCHANGED <<failed, info, q, run, again, att, due, owed, sent, recv, room>>
(* Workers in motion may have taken a task, or begun its next attempt.      *)
Drop(W) == /\ phase' = "dropped" /\ must' = {} /\ mustE' = FALSE /\ room' = IF phase \in {"told", "dropped"} THEN room ELSE W - Busy
           /\ UNCHANGED <<failed, info, q, run, again, att, due, owed, sent, recv>>
(* Nothing is in motion: what had to be sent has arrived, no worker is idle *)
(* while there is work, everybody has received what was sent to everybody,  *)
(* and the operations in progress that see the signal to stop are these.    *)
Quiet(signalled, W) ==
    /\ must = {} /\ ~mustE
    /\ phase = "open" => again = {} /\ (Cardinality(run) < W => \A k \in q : Job(k) \in sent \cup recv)
    /\ CASE phase = "open" -> signalled = {}
         [] phase \in {"telling", "told"} -> signalled = run
         [] OTHER -> TRUE
    /\ due' = {} /\ owed' = {} /\ again' = {} /\ recv' = recv \cup sent /\ sent' = {}
    /\ q' = IF phase = "open" /\ Cardinality(run) < W THEN {} ELSE q
    /\ phase' = IF phase = "telling" THEN "told" ELSE phase
    /\ room' = IF phase = "dropped" THEN 0 ELSE IF phase = "telling" THEN (IF Cardinality(run) < W THEN W - Cardinality(run) ELSE 0) ELSE room
    /\ UNCHANGED <<failed, info, run, att, must, mustE>>
(* The observer has seen all it waits for; operations may be in motion.     *)
Settled == must = {} /\ ~mustE /\ UNCHANGED vars
(* After the grace period, each worker having been given work: all of them  *)
(* have stopped; if nothing told them to stop, none has.                    *)
Stopped(n, W) == (phase = "told" => n = W) /\ (phase = "open" => n = 0) /\ UNCHANGED vars
(* Background activities left after the runtime has been dropped.           *)
Alive(n) == phase = "dropped" /\ (run = {} => n = 0) /\ UNCHANGED vars
----------------------------------------------------------------------------
CONSTANTS Tasks, Jobs, N
Classes == {"boom", "panic", "codec"}
Next == \/ \E k \in Tasks : \/ \E j \in Jobs, b \in BOOLEAN : Publish(k, j, b)
                            \/ \E a \in 1..2 : Begin(k, a, N)
                            \/ \E o \in Classes \cup {"ok", "ignore", "transient"} : k \in DOMAIN info /\ (o = "transient" => att[k] < 2) /\ End(k, o)
                            \/ \E j \in Jobs : k \in DOMAIN info /\ (Result(k, j) \/ TakeBad(k, N) \/ \E c \in Classes : Error(k, c, j))
        \/ (\E j \in Jobs : j \notin sent \cup recv /\ Abort(j)) \/ AbortAll \/ Drop(N)
        \/ \E s \in SUBSET run : Quiet(s, N)
Spec == Init /\ [][Next]_vars
AtMostN == Busy <= N
Once == \A k \in run \cup due : k \notin q /\ att[k] >= 1
ToldIsFinal == [][(phase = "told") => (phase' \in {"told", "dropped"} /\ due' \subseteq due /\ must' \subseteq must)]_vars
NoAborted == [][\A k \in run' \ run : k \in again \/ Job(k) \notin recv]_vars
DroppedIsFinal == [][(phase = "dropped") => (run' \ run \subseteq q \cup again /\ q' \subseteq q /\ room' <= room)]_vars
=============================================================================

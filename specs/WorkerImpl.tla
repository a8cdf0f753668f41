----------------------------- MODULE WorkerImpl -----------------------------
(* The loop of a worker: take a task, skip it if its job is terminated,     *)
(* otherwise execute it on another thread while listening, on a channel     *)
(* that holds one value, for an abort of everything; a separate activity    *)
(* receives commands, records terminated jobs and writes that channel.      *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, Tasks, Jobs, JobOf, MaxAborts, Defect
ALL == 99
W == 1..N
VARIABLES ext, q, pub,          \* tasks waiting, published
          threads,         \* operations in progress
          outcome,         \* of operations that have ended: task -> outcome, or "none"
          pc, task,        \* per worker
          flag,            \* its abort signal
          term, watch, cmds,
          results, errors, \* sent, per task
          aborted, allSent, began, early, fin
vars == <<q, pub, threads, outcome, pc, task, flag, term, watch, cmds, results, errors, aborted, allSent, began, early, fin, ext>>
Init == /\ ext = FALSE /\ q = <<>> /\ pub = {} /\ threads = {} /\ outcome = [k \in Tasks |-> "none"]
        /\ pc = [w \in W |-> "idle"] /\ task = [w \in W |-> 0] /\ flag = [w \in W |-> FALSE]
        /\ term = [w \in W |-> {}] /\ watch = [w \in W |-> 0] /\ cmds = [w \in W |-> <<>>]
        /\ results = [k \in Tasks |-> 0] /\ errors = [k \in Tasks |-> 0] /\ aborted = {} /\ allSent = FALSE
        /\ began = [k \in Tasks |-> 0] /\ early = {} /\ fin = [k \in Tasks |-> "none"]
Tell(key) == cmds' = [w \in W |-> Append(cmds[w], key)]
(* environment *)
Publish(k) == /\ k \notin pub /\ (\A x \in Tasks : x < k => x \in pub) /\ pub' = pub \cup {k} /\ q' = Append(q, k)
              /\ UNCHANGED <<threads, outcome, pc, task, flag, term, watch, cmds, results, errors, aborted, allSent, began, early, fin, ext>>
Abort(j) == /\ j \notin aborted /\ Cardinality(aborted) < MaxAborts /\ aborted' = aborted \cup {j} /\ Tell(j)
            /\ UNCHANGED <<q, pub, threads, outcome, pc, task, flag, term, watch, results, errors, allSent, began, early, fin, ext>>
AbortAll == /\ ~allSent /\ MaxAborts > 0 /\ allSent' = TRUE /\ ext' = TRUE /\ Tell(ALL)
            /\ UNCHANGED <<q, pub, threads, outcome, pc, task, flag, term, watch, results, errors, aborted, began, early, fin>>
OpEnd(k, o) == /\ k \in threads /\ threads' = threads \ {k} /\ outcome' = [outcome EXCEPT ![k] = o]
               /\ (o = "transient" => began[k] < 2)
               /\ fin' = [fin EXCEPT ![k] = o]
               /\ early' = IF allSent THEN early ELSE early \cup {k}
               /\ UNCHANGED <<q, pub, pc, task, flag, term, watch, cmds, results, errors, aborted, allSent, began, ext>>
(* workers *)
Mark(w, key) == term' = [term EXCEPT ![w] = @ \cup {key}]
Deliver(w) == /\ cmds[w] # <<>> /\ pc[w] # "stopped" /\ cmds' = [cmds EXCEPT ![w] = Tail(@)]
              /\ LET key == Head(cmds[w]) IN
                   /\ Mark(w, key)
                   /\ watch' = IF key \notin term[w] /\ (watch[w] # ALL \/ Defect = "overwrite") THEN [watch EXCEPT ![w] = key] ELSE watch
              /\ UNCHANGED <<q, pub, threads, outcome, pc, task, flag, results, errors, aborted, allSent, began, early, fin, ext>>
Take(w) == /\ pc[w] = "idle" /\ q # <<>> /\ q' = Tail(q)
           /\ LET k == Head(q) IN
                CASE flag[w] -> pc' = [pc EXCEPT ![w] = "stopped"] /\ UNCHANGED <<threads, task, began>>
                  [] ~flag[w] /\ JobOf[k] \in term[w] -> UNCHANGED <<pc, threads, task, began>>
                  [] OTHER -> /\ pc' = [pc EXCEPT ![w] = "exec"] /\ task' = [task EXCEPT ![w] = k]
                              /\ threads' = threads \cup {k} /\ began' = [began EXCEPT ![k] = @ + 1]
           /\ UNCHANGED <<pub, outcome, flag, term, watch, cmds, results, errors, aborted, allSent, early, fin, ext>>
Signal(w) == /\ pc[w] = "exec" /\ (watch[w] = ALL \/ (Defect = "abort_stops" /\ watch[w] # 0))
             /\ flag' = [flag EXCEPT ![w] = TRUE] /\ pc' = [pc EXCEPT ![w] = "stopped"]
             /\ UNCHANGED <<q, pub, threads, outcome, task, term, watch, cmds, results, errors, aborted, allSent, began, early, fin, ext>>
Collect(w) ==
    /\ pc[w] = "exec" /\ outcome[task[w]] # "none"
    /\ LET k == task[w]  o == outcome[k] IN
        /\ outcome' = [outcome EXCEPT ![k] = "none"]
        /\ IF o = "transient" THEN threads' = threads \cup {k} /\ began' = [began EXCEPT ![k] = @ + 1] /\ UNCHANGED <<pc, task>>
           ELSE pc' = [pc EXCEPT ![w] = "idle"] /\ task' = [task EXCEPT ![w] = 0] /\ UNCHANGED <<threads, began>>
        /\ results' = IF o = "ok" THEN [results EXCEPT ![k] = @ + 1] ELSE results
        /\ errors' = IF o = "fatal" \/ (o = "ignore" /\ Defect = "ignore_reported") THEN [errors EXCEPT ![k] = @ + 1] ELSE errors
        /\ IF (o = "fatal") \/ (o = "ignore" /\ Defect = "ignore_marks") THEN Mark(w, JobOf[k]) ELSE UNCHANGED term
        /\ IF o = "fatal" /\ Defect # "tells_no_one" THEN Tell(ALL) /\ allSent' = TRUE ELSE UNCHANGED <<cmds, allSent>>
    /\ UNCHANGED <<q, pub, flag, watch, aborted, early, fin, ext>>
Internal == \E w \in W : Deliver(w) \/ Take(w) \/ Signal(w) \/ Collect(w)
Next == Internal \/ (\E k \in Tasks : Publish(k) \/ \E o \in {"ok", "ignore", "fatal", "transient"} : OpEnd(k, o))
        \/ (\E j \in Jobs : Abort(j)) \/ AbortAll
Spec == Init /\ [][Next]_vars
Quiescent == ~ENABLED Internal
Executing(k) == \E w \in W : pc[w] = "exec" /\ task[w] = k
Idle(w) == pc[w] = "idle"
(* What the contract asks for when it is quiet.                             *)
QuietOK == Quiescent =>
    /\ \A k \in early : (fin[k] = "ok" /\ ~allSent => results[k] = 1)
                       /\ (fin[k] = "fatal" => (\E j \in Tasks : errors[j] = 1) \/ ext)
                       /\ (errors[k] = 1 => \A w \in W : pc[w] # "exec")
    /\ ~allSent => /\ (\A w \in W : pc[w] # "stopped")
                   /\ (\E w \in W : Idle(w)) => \A k \in pub : JobOf[k] \in aborted \/ (began[k] > 0 /\ outcome[k] = "none")
                   /\ \A w \in W : ~flag[w]
    /\ allSent => \A w \in W : pc[w] # "exec"
    /\ (allSent => \A w \in W : watch[w] = ALL \/ pc[w] = "stopped")
Counts == \A k \in Tasks : results[k] + errors[k] <= 1 /\ Cardinality(threads) <= N
Truthful == \A k \in Tasks : (results[k] > 0 => fin[k] = "ok")
                              /\ (errors[k] > 0 => fin[k] = "fatal") /\ (results[k] + errors[k] > 0) => began[k] > 0
(* A task of a job whose abort every worker has processed is not begun.     *)
Honoured == [][\A k \in Tasks : (began'[k] # began[k] /\ began[k] = 0) => \E w \in W : JobOf[k] \notin term[w]]_vars
(* Only a fatal failure or an abort of everything stops workers.            *)
Fair == Spec /\ WF_vars(Internal)
Stops == allSent ~> \A w \in W : watch[w] = ALL \/ pc[w] = "stopped"
Final == [][\A w \in W : (watch[w] = ALL) => (watch'[w] = ALL)]_vars
TwoJobs == [k \in Tasks |-> k % 2]
=============================================================================

---------------------------- MODULE SharingImpl ----------------------------
(* How directives share a runtime: one queue of tasks; per lease a queue of *)
(* results with a name of its own, held by a guard; dropping the guard      *)
(* starts the deletion of the queue; readers keep the queue they subscribed *)
(* to, workers declare the queue they send to by its name, which may bring  *)
(* the name of a deleted one back.                                          *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS D, Names, N, Defect
VARIABLES lease,    \* directive -> name of its results
          st,       \* directive -> "new", "run", "done"
          name,     \* name -> queue
          msgs,     \* queue -> messages
          rd,       \* directive -> queue its receiver reads
          tasks,    \* not executed yet: <<directive, number, name>>
          dels,     \* deletions under way
          sent, got, used
vars == <<lease, st, name, msgs, rd, tasks, dels, sent, got, used>>
Init == /\ lease = [d \in D |-> 0] /\ st = [d \in D |-> "new"] /\ name = <<>> /\ msgs = <<>> /\ rd = [d \in D |-> 0]
        /\ tasks = {} /\ dels = {} /\ sent = [d \in D |-> 0] /\ got = [d \in D |-> {}] /\ used = {}
(* Declaring a queue: the queue of that name, a new one if there is none.   *)
Fresh == Cardinality(DOMAIN msgs) + 1
Of(n) == IF n \in DOMAIN name THEN name[n] ELSE Fresh
Declared(n) == IF n \in DOMAIN name THEN name ELSE (n :> Fresh) @@ name
Store(n) == IF n \in DOMAIN name THEN msgs ELSE (Fresh :> {}) @@ msgs
Lease(d) == /\ st[d] = "new"
            /\ \E n \in Names :
                /\ Defect # "same_names" => n \notin used
                /\ used' = used \cup {n} /\ lease' = [lease EXCEPT ![d] = n] /\ st' = [st EXCEPT ![d] = "run"]
                /\ rd' = [rd EXCEPT ![d] = Of(n)] /\ name' = Declared(n) /\ msgs' = Store(n)
            /\ UNCHANGED <<tasks, dels, sent, got>>
Send(d) == /\ st[d] = "run" /\ sent[d] < N /\ sent' = [sent EXCEPT ![d] = @ + 1]
           /\ tasks' = tasks \cup {<<d, sent[d] + 1, lease[d]>>}
           /\ UNCHANGED <<lease, st, name, msgs, rd, dels, got, used>>
Work(x) == /\ x \in tasks /\ tasks' = tasks \ {x}
           /\ name' = Declared(x[3]) /\ msgs' = [Store(x[3]) EXCEPT ![Of(x[3])] = @ \cup {<<x[1], x[2]>>}]
           /\ UNCHANGED <<lease, st, rd, dels, sent, got, used>>
Read(d) == /\ st[d] = "run"
           /\ \E m \in msgs[rd[d]] : msgs' = [msgs EXCEPT ![rd[d]] = @ \ {m}] /\ got' = [got EXCEPT ![d] = @ \cup {m}]
           /\ UNCHANGED <<lease, st, name, rd, tasks, dels, sent, used>>
Finish(d) == /\ st[d] = "run" /\ st' = [st EXCEPT ![d] = "done"]    \* or dropped half way
             /\ dels' = IF Defect = "no_release" THEN dels ELSE dels \cup {lease[d]}
             /\ UNCHANGED <<lease, name, msgs, rd, tasks, sent, got, used>>
Delete(n) == /\ n \in dels /\ dels' = dels \ {n}
             /\ name' = [m \in (IF Defect = "deletes_all" THEN {} ELSE DOMAIN name \ {n}) |-> name[m]]
             /\ UNCHANGED <<lease, st, msgs, rd, tasks, sent, got, used>>
Next == \/ \E d \in D : Lease(d) \/ Send(d) \/ Read(d) \/ Finish(d)
        \/ (\E x \in tasks : Work(x)) \/ \E n \in dels : Delete(n)
Spec == Init /\ [][Next]_vars
Own == \A d \in D : \A m \in got[d] : m[1] = d
Still == tasks = {} /\ dels = {} /\ \A d \in D : st[d] = "run" => msgs[rd[d]] = {}
Complete == Still => \A d \in D : st[d] = "run" => got[d] = {<<d, k>> : k \in 1..sent[d]}
Released == dels = {} => \A d \in D, n \in DOMAIN name : st[d] = "done" => name[n] # rd[d]
(* A result sent late stays where nobody reads it.                          *)
Nobody == \A d \in D : st[d] = "run" => \A e \in D \ {d} : rd[d] # rd[e] \/ rd[d] = 0
=============================================================================

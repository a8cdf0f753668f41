------------------------------ MODULE TaskBus ------------------------------
(* Leaders and workers on task buses of one broker (C25): which queue a     *)
(* message is published to, and who may take it.                            *)
EXTENDS Naturals, FiniteSets, TLC
VARIABLES bus,   \* name of a process -> the task bus it is configured with
          tasks, \* task message -> its bus
          job,   \* job -> the leader that published its first task
          part,  \* result message -> the leader it is for
          done   \* jobs with the number of tasks delivered and of results published
vars == <<bus, tasks, job, part, done>>
Start(b) == bus = b /\ tasks = <<>> /\ job = <<>> /\ part = <<>> /\ done = <<>>
(* Tasks go to the bus of their leader; a job is one leader's.              *)
Task(m, who, q, j) == /\ m \notin DOMAIN tasks /\ q = bus[who]
                      /\ tasks' = (m :> q) @@ tasks
                      /\ IF j \in DOMAIN job THEN job[j] = who /\ UNCHANGED <<job, done>>
                         ELSE job' = (j :> who) @@ job /\ done' = (j :> [given |-> 0, made |-> 0]) @@ done
                      /\ UNCHANGED <<bus, part>>
(* ... and to its workers only.                                             *)
TakeTask(m, who, j) == /\ m \in DOMAIN tasks /\ bus[who] = tasks[m]
                       /\ done' = [done EXCEPT ![j].given = @ + 1]
                       /\ UNCHANGED <<bus, tasks, job, part>>
(* A result is of a task that has been given out; it goes to its leader.    *)
Result(m, j) == /\ j \in DOMAIN job /\ done[j].made < done[j].given
                /\ done' = [done EXCEPT ![j].made = @ + 1] /\ part' = (m :> job[j]) @@ part
                /\ UNCHANGED <<bus, tasks, job>>
TakeResult(m, who) == m \in DOMAIN part /\ part[m] = who /\ UNCHANGED vars
----------------------------------------------------------------------------
CONSTANTS P, B, Q, J, MM
Init == \E b \in [P -> B] : Start(b)
Next == \E m \in MM, who \in P, q \in Q, j \in J :
            \/ Task(m, who, q, j)
            \/ j \in DOMAIN job /\ m \in DOMAIN tasks /\ tasks[m] = bus[job[j]] /\ done[j].given < 2 /\ TakeTask(m, who, j)
            \/ Result(m, j) /\ m \notin DOMAIN part
            \/ TakeResult(m, who)
Spec == Init /\ [][Next]_vars
OwnBus == \A m \in DOMAIN tasks : \E p \in P : bus[p] = tasks[m]
NoMore == \A j \in DOMAIN done : done[j].made <= done[j].given
=============================================================================

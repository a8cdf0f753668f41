------------------------------ MODULE GenWorker ------------------------------
(* Schedules for workers.  After an operation with hold = TRUE the system   *)
(* is not given time to settle.                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Ws, J, L, Outs, Bads, MaxEnds, Aborts, MaxAborts, Holds
VARIABLES h, w, pubs, rels, bad, aborts, last
vars == <<h, w, pubs, rels, bad, aborts, last>>
Init == h = <<>> /\ w \in Ws /\ pubs = 0 /\ rels = 0 /\ bad = 0 /\ aborts = 0 /\ last = "none"
Do(op) == Len(h) < L /\ (\E x \in Holds : h' = Append(h, op @@ [hold |-> x])) /\ last' = op.o
Next == \/ /\ pubs' = pubs + 1 /\ UNCHANGED <<w, rels, aborts>>
           /\ \E j \in 0..(J - 1) : \/ Do([o |-> "pub", job |-> j, bad |-> "none"]) /\ UNCHANGED bad
                                    \/ \E x \in Bads : bad < MaxEnds /\ Do([o |-> "pub", job |-> j, bad |-> x]) /\ bad' = bad + 1
        \/ /\ rels < pubs /\ UNCHANGED <<w, pubs, aborts>> /\ rels' = rels + 1
           /\ \E r \in 0..1 : r < pubs - rels /\ r < w
               /\ \/ Do([o |-> "rel", r |-> r, out |-> "ok"]) /\ UNCHANGED bad
                  \/ \E x \in Outs : bad < MaxEnds /\ Do([o |-> "rel", r |-> r, out |-> x]) /\ bad' = bad + 1
        \/ \E x \in Aborts : /\ aborts < MaxAborts /\ aborts' = aborts + 1 /\ UNCHANGED <<w, pubs, rels, bad>>
                             /\ IF x = "abort" THEN \E j \in 0..(J - 1) : Do([o |-> "abort", job |-> j]) ELSE Do([o |-> x])
Spec == Init /\ [][Next]_vars
Emit == Len(h) < L \/ PrintT("STIM " \o ToJson([w |-> w, ops |-> h]))
=============================================================================

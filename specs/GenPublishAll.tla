---------------------------- MODULE GenPublishAll ----------------------------
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Limits, Errors, Holds, L
VARIABLES h, limit, n, fin, ended, errs
vars == <<h, limit, n, fin, ended, errs>>
Init == h = <<>> /\ limit \in Limits /\ n = 0 /\ fin = {} /\ ended = FALSE /\ errs = 0
Do(op) == Len(h) < L /\ \E hold \in Holds : h' = Append(h, op @@ [hold |-> hold])
(* Items are read in order, so these may be in progress.                    *)
Window == IF limit = 0 THEN 1..n ELSE {k \in 1..n : Cardinality({j \in 1..(k - 1) : j \notin fin}) < limit}
Next == \/ ~ended /\ n < N /\ n' = n + 1 /\ Do([o |-> "offer", k |-> n + 1]) /\ UNCHANGED <<limit, fin, ended, errs>>
        \/ ~ended /\ ended' = TRUE /\ Do([o |-> "offerend"]) /\ UNCHANGED <<limit, n, fin, errs>>
        \/ ~ended /\ errs < Errors /\ errs' = errs + 1 /\ ended' = TRUE /\ Do([o |-> "inerr"]) /\ UNCHANGED <<limit, n, fin>>
        \/ \E k \in Window \ fin : /\ fin' = fin \cup {k}
              /\ \/ Do([o |-> "done", k |-> k]) /\ UNCHANGED errs
                 \/ errs < Errors /\ errs' = errs + 1 /\ Do([o |-> "fail", k |-> k])
              /\ UNCHANGED <<limit, n, ended>>
Spec == Init /\ [][Next]_vars
Emit == (Len(h) < L /\ ~(ended /\ fin = 1..n)) \/ PrintT("STIM " \o ToJson([ops |-> h, limit |-> limit]))
=============================================================================

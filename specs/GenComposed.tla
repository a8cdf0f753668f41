----------------------------- MODULE GenComposed -----------------------------
(* Nestings of acknowledgers, the outcomes of the simple ones, and the      *)
(* order in which one or two calls on the composition make progress.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, L
VARIABLES h, n, shape, out
vars == <<h, n, shape, out>>
Shapes == {"left", "right", "balanced", "boxed", "arc"}
Outs == {"ok", "fail", "slow", "slowfail"}
Init == /\ h = <<>> /\ n \in 1..MaxN /\ shape \in Shapes /\ out \in [1..n -> Outs]
Began == {h[k].c : k \in {j \in 1..Len(h) : h[j].o = "begin"}}
Gone == {h[k].c : k \in {j \in 1..Len(h) : h[j].o = "drop"}}
Do(op) == Len(h) < L /\ h' = Append(h, op) /\ UNCHANGED <<n, shape, out>>
Next ==
    \/ \E c \in {1, 2}, how \in {"ack", "nack"} : c \notin Began /\ (c = 2 => 1 \in Began) /\ Do([o |-> "begin", c |-> c, how |-> how])
    \/ \E c \in Began \ Gone : Do([o |-> "poll", c |-> c]) \/ Do([o |-> "drop", c |-> c])
Spec == Init /\ [][Next]_vars
Emit == Len(h) < L \/ PrintT("STIM " \o ToJson([ops |-> h, n |-> n, shape |-> shape, out |-> out]))
=============================================================================

------------------------------ MODULE Composed ------------------------------
(* Contract of composed acknowledgers (C07).  A composition of acknowledgers*)
(* is, whatever its nesting, a sequence of simple ones: they are invoked    *)
(* from first to last, each after the one before has succeeded, and the     *)
(* outcome is that of the first that fails.  Calls on one composition are   *)
(* independent of each other; a call that is dropped half way stops.        *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Calls, N, Outcomes
VARIABLES call      \* call -> [how, at: leaf being or last invoked, busy, res]
vars == <<call>>
Init == call = [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Begin(c, how) == c \notin DOMAIN call /\ call' = Put(call, c, [how |-> how, at |-> 0, busy |-> FALSE, res |-> "ok"])
Invoke(c, k, how) ==
    /\ c \in DOMAIN call
    /\ LET x == call[c] IN
        /\ ~x.busy /\ x.res = "ok" /\ k = x.at + 1 /\ k <= N /\ how = x.how
        /\ call' = Put(call, c, [x EXCEPT !.at = k, !.busy = TRUE])
Finish(c, k, res) ==
    /\ c \in DOMAIN call
    /\ LET x == call[c] IN
        /\ x.busy /\ k = x.at
        /\ call' = Put(call, c, [x EXCEPT !.busy = FALSE, !.res = res])
Return(c, res, n) ==
    /\ c \in DOMAIN call
    /\ LET x == call[c] IN
        /\ ~x.busy /\ res = x.res /\ res # "gone"
        /\ (res = "ok" => x.at = n)
        /\ call' = Put(call, c, [x EXCEPT !.res = "gone"])
Cancel(c) == c \in DOMAIN call /\ call[c].res # "gone" /\ call' = Put(call, c, [call[c] EXCEPT !.res = "gone", !.busy = FALSE])
Next == \E c \in Calls :
    \/ \E how \in {"ack", "nack"} : Begin(c, how) \/ \E k \in 1..N : Invoke(c, k, how)
    \/ \E k \in 1..N, r \in Outcomes : Finish(c, k, r)
    \/ \E r \in Outcomes : Return(c, r, N)
    \/ Cancel(c)
Spec == Init /\ [][Next]_vars
(* Nothing is invoked after a failure, and nothing is skipped.              *)
Ordered == [][\A c \in DOMAIN call : call'[c].at # call[c].at => call[c].res = "ok" /\ call'[c].at = call[c].at + 1]_vars
=============================================================================

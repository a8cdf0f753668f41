----------------------------- MODULE GenQueues -----------------------------
(* What the users of one queue can do, for any mechanism inside: declare    *)
(* consumers (under names), publish, poll, drop; publishes, polls and       *)
(* declarations may be suspended at the points in `PubStops`, `PollStops`,  *)
(* `SubStops` and continued later.  TLC enumerates the schedules of length  *)
(* L (or draws long ones with -simulate); the harness executes them.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxC, MaxM, Names, PubStops, PollStops, SubStops, MaxPaused, Hops, L

VARIABLES h, nc, open, np, paused
vars == <<h, nc, open, np, paused>>

Init == h = <<>> /\ nc = 0 /\ open = {} /\ np = 0 /\ paused = {}

Ids(kind) == {x.id : x \in {y \in paused : y.kind = kind}}
Do(op) == Len(h) < L /\ h' = Append(h, op)
Free == open \ (Ids("poll") \cup Ids("sub"))
UsedNames == {h[k].n : k \in {j \in 1..Len(h) : h[j].o = "sub"}}
(* The first use of names is in order.                                      *)
FreshOk(n) == n \in UsedNames \/ \A n2 \in Names : n2 < n => n2 \in UsedNames

Subscribe(n, stop) ==
    /\ nc < MaxC /\ FreshOk(n)
    /\ nc' = nc + 1 /\ open' = open \cup {nc + 1}
    /\ IF stop = "" THEN Do([o |-> "sub", c |-> nc + 1, n |-> n]) /\ UNCHANGED paused
       ELSE /\ Cardinality(paused) < MaxPaused
            /\ Do([o |-> "sub", c |-> nc + 1, n |-> n, t |-> nc + 1, stop |-> <<stop>>])
            /\ paused' = paused \cup {[kind |-> "sub", id |-> nc + 1, t |-> nc + 1]}
    /\ UNCHANGED np

Publisher == CHOOSE p \in 1..(MaxPaused + 1) : p \notin {x.p : x \in {y \in paused : y.kind = "pub"}}
Publish(stop) ==
    /\ np < MaxM /\ np' = np + 1
    /\ IF stop = "" THEN Do([o |-> "pub", p |-> Publisher, m |-> np + 1]) /\ UNCHANGED paused
       ELSE /\ Cardinality(paused) < MaxPaused
            /\ Do([o |-> "pub", p |-> Publisher, m |-> np + 1, t |-> 100 + np, stop |-> <<stop>>])
            /\ paused' = paused \cup {[kind |-> "pub", id |-> np + 1, p |-> Publisher, t |-> 100 + np, hops |-> 0]}
    /\ UNCHANGED <<nc, open>>

Poll(c, stop) ==
    /\ c \in Free
    /\ IF stop = "" THEN Do([o |-> "poll", c |-> c]) /\ UNCHANGED paused
       ELSE /\ Cardinality(paused) < MaxPaused
            /\ Do([o |-> "poll", c |-> c, t |-> 200 + c, stop |-> <<stop>>])
            /\ paused' = paused \cup {[kind |-> "poll", id |-> c, t |-> 200 + c]}
    /\ UNCHANGED <<nc, open, np>>

Drop(c) ==
    /\ c \in Free /\ open' = open \ {c}
    /\ Do([o |-> "drop", c |-> c])
    /\ UNCHANGED <<nc, np, paused>>

Resume(x) ==
    /\ Do([o |-> "step", t |-> x.t])
    /\ paused' = paused \ {x}
    /\ UNCHANGED <<nc, open, np>>

(* Continue a publish to its next suspension.                               *)
Advance(x, stop) ==
    /\ x.kind = "pub" /\ x.hops < Hops
    /\ Do([o |-> "step", t |-> x.t, stop |-> <<stop>>])
    /\ paused' = (paused \ {x}) \cup {[x EXCEPT !.hops = @ + 1]}
    /\ UNCHANGED <<nc, open, np>>

Next == \/ \E n \in Names, s \in SubStops \cup {""} : Subscribe(n, s)
        \/ \E s \in PubStops \cup {""} : Publish(s)
        \/ \E c \in 1..nc, s \in PollStops \cup {""} : Poll(c, s)
        \/ \E c \in 1..nc : Drop(c)
        \/ \E x \in paused : Resume(x) \/ \E s \in PubStops : Advance(x, s)
Spec == Init /\ [][Next]_vars
Emit == Len(h) < L \/ PrintT("STIM " \o ToJson(h))
=============================================================================

------------------------------ MODULE GenCoord ------------------------------
(* What the two sides of a coordinated channel can do.  Publishes and polls *)
(* may be suspended at marked points; tasks 1..MaxT poll the receiver.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxM, MaxT, PubStops, PollStops, MaxPaused, Hops, Hows, Cuts, L

VARIABLES h, np, nk, polls, closed, paused, cut
vars == <<h, np, nk, polls, closed, paused, cut>>
Init == h = <<>> /\ np = 0 /\ nk = 0 /\ polls = 0 /\ closed = 0 /\ paused = {} /\ cut = FALSE
Do(op) == Len(h) < L /\ h' = Append(h, op)
Paused(x) == Cardinality(paused) < MaxPaused /\ paused' = paused \cup {x}

Publish(ok, stop) ==
    /\ np < MaxM /\ np' = np + 1
    /\ closed < 2 /\ (closed = 1 => \A k \in 1..Len(h) : h[k].o = "pub" => ~h[k].late)
    /\ Do([o |-> "pub", m |-> np + 1, ok |-> ok, late |-> closed = 1, t |-> 100 + np, stop |-> IF stop = "" THEN <<>> ELSE <<stop>>])
    /\ IF stop = "" THEN UNCHANGED paused ELSE Paused([kind |-> "pub", t |-> 100 + np, hops |-> 0])
    /\ UNCHANGED <<nk, polls, closed>>
Close(how) ==
    /\ closed' = IF how = "close" THEN 1 ELSE 2
    /\ closed < closed'
    /\ Do([o |-> how])
    /\ UNCHANGED <<np, nk, polls, paused>>
Poll(c, stop) ==
    /\ {x \in paused : x.kind = "poll"} = {}
    /\ polls' = polls + 1
    /\ \A d \in 1..(c - 1) : \E k \in 1..Len(h) : h[k].o = "poll" /\ h[k].c = d
    /\ Do([o |-> "poll", c |-> c, t |-> 200, stop |-> IF stop = "" THEN <<>> ELSE <<stop>>])
    /\ IF stop = "" THEN UNCHANGED paused ELSE Paused([kind |-> "poll", t |-> 200, hops |-> 0])
    /\ UNCHANGED <<np, nk, closed>>
Ack(m, how) ==
    /\ m <= np /\ m <= polls /\ nk < MaxM + 2
    /\ nk' = nk + 1
    /\ Do([o |-> "ack", m |-> m, how |-> how, k |-> nk + 1])
    /\ UNCHANGED <<np, polls, closed, paused>>
Resume(x) ==
    /\ Do([o |-> "step", t |-> x.t, stop |-> <<>>])
    /\ paused' = paused \ {x}
    /\ UNCHANGED <<np, nk, polls, closed>>
Advance(x, stop) ==
    /\ x.hops < Hops
    /\ Do([o |-> "step", t |-> x.t, stop |-> <<stop>>])
    /\ paused' = (paused \ {x}) \cup {[x EXCEPT !.hops = @ + 1]}
    /\ UNCHANGED <<np, nk, polls, closed>>
Act ==
    \/ \E ok \in BOOLEAN, s \in PubStops \cup {""} : Publish(ok, s)
    \/ Close("close") \/ Close("drop")
    \/ \E c \in 1..MaxT, s \in PollStops \cup {""} : Poll(c, s)
    \/ \E m \in 1..MaxM, how \in Hows : Ack(m, how)
    \/ \E x \in paused : Resume(x) \/ \E s \in IF x.kind = "pub" THEN PubStops ELSE PollStops : Advance(x, s)
(* The underlying stream ends.                                              *)
Cut == ~cut /\ Cuts /\ cut' = TRUE /\ Do([o |-> "cut"]) /\ UNCHANGED <<np, nk, polls, closed, paused>>
Next ==
    \/ Cut
    \/ UNCHANGED cut /\ Act
Spec == Init /\ [][Next]_vars
Emit == Len(h) < L \/ PrintT("STIM " \o ToJson(h))
=============================================================================

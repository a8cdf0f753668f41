----------------------------- MODULE GenContig -----------------------------
(* Sequences of operations on an assembler of the indices 1..N: the first   *)
(* offer of an index (or of a run of two), offering again what is held,     *)
(* looking, storing, removing by key; offers may be suspended at `Stops`.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Stops, MaxPaused, Kinds, Runs, L
VARIABLES h, fresh, paused, init
vars == <<h, fresh, paused, init>>
Init == /\ init \in SUBSET (1..N) /\ Cardinality(init) <= 3
        /\ h = <<>> /\ fresh = (1..N) \ init /\ paused = {}
Do(op) == Len(h) < L /\ h' = Append(h, op) /\ UNCHANGED init
S(stop) == IF stop = "" THEN <<>> ELSE <<stop>>
Pause(op, stop) ==
    IF stop = "" THEN Do(op @@ [stop |-> <<>>, t |-> 900 + Len(h)]) /\ UNCHANGED paused
    ELSE /\ Cardinality(paused) < MaxPaused
         /\ Do(op @@ [stop |-> <<stop>>, t |-> Len(h) + 1]) /\ paused' = paused \cup {Len(h) + 1}
Next ==
    \/ \E a \in fresh, r \in Runs, s \in Stops \cup {""}, kind \in Kinds :
         /\ a..(a + r) \subseteq fresh /\ fresh' = fresh \ (a..(a + r))
         /\ Pause([o |-> kind, lo |-> a, hi |-> a + r], s)
    \/ \E kind \in Kinds, s \in Stops \cup {""} : Len(h) > 1 /\ Pause([o |-> kind, lo |-> 0, hi |-> 0], s) /\ UNCHANGED fresh
    \/ \E a \in (1..N) \ fresh : Do([o |-> "dequeue", key |-> a, stop |-> <<>>, t |-> 900 + Len(h)]) /\ UNCHANGED <<fresh, paused>>
    \/ \E p \in paused : Do([o |-> "step", t |-> p, stop |-> <<>>]) /\ paused' = paused \ {p} /\ UNCHANGED fresh
    \/ \E p \in paused, s \in Stops : Do([o |-> "step", t |-> p, stop |-> <<s>>]) /\ UNCHANGED <<fresh, paused>>
Spec == Init /\ [][Next]_vars
Emit == Len(h) < L \/ PrintT("STIM " \o ToJson([ops |-> h, init |-> init]))
=============================================================================

----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications: a batch of recorded runs is     *)
(* checked in one go.  `t` is the run, `i` the number of its events that    *)
(* have been explained.  A run is accepted if all its events can be.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, i
Traces == ndJsonDeserialize(IOEnv.TRACES)
Len0(k) == Len(Traces[k].ev)
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
TraceInit == t \in 1..Len(Traces) /\ i = 0
More == i < Len(Traces[t].ev)
ev == Traces[t].ev[i + 1]
Is(e) == More /\ ev.e = e /\ i' = i + 1 /\ t' = t
Silent == More /\ UNCHANGED <<t, i>>
SetOf(s) == {s[k] : k \in 1..Len(s)}
(* Runs that have been explained are not explored further.                  *)
Track == /\ IF i > TLCGet(t) THEN TLCSet(t, i) ELSE TRUE
         /\ TLCGet(t) < Len0(t)
Accepted == \A k \in 1..Len(Traces) :
                TLCGet(k) = Len0(k) \/ PrintT("REJECTED " \o ToString(k) \o " " \o ToString(TLCGet(k)))
=============================================================================

--------------------------- MODULE TraceOperations ---------------------------
EXTENDS Operations, TraceBase
TInit == Init /\ TraceInit
TNext == \/ Is("call") /\ Call(ev.k, ev.op, ev.f)
         \/ Is("ran") /\ Run(ev.k, ev.op, ev.f)
         \/ Is("out") /\ Out(ev.k, ev.op, ev.f)
         \/ Is("end") /\ End /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
=============================================================================

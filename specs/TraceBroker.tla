---------------------------- MODULE TraceBroker ----------------------------
EXTENDS Broker, TraceBase
TInit == Init /\ TraceInit
TNext == \/ Is("pub") /\ Pub(ev.m, ev.k)
         \/ Is("deliver") /\ Deliver(ev.m, ev.c)
         \/ Is("start") /\ \E m \in SetOf(ev.ms) : Start(m)
         \/ Is("finish") /\ \E m \in SetOf(ev.ms) : Finish(m, ev.ok)
         \/ Is("ack") /\ Ack(ev.m, ev.c)
         \/ Is("nack") /\ Nack(ev.m, ev.c)
         \/ Is("back") /\ Back(ev.m, ev.c)
         \/ Is("deleted") /\ Deleted(SetOf(ev.ms))
         \/ Is("abort") /\ Abort(SetOf(ev.ms))
         \/ Is("rest") /\ Quiescent(ev.n)
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
=============================================================================

--------------------------- MODULE TraceAmqpQueue ---------------------------
EXTENDS AmqpQueue, TraceBase
TInit == TraceInit /\ Start(Traces[t].cfg.mode, Traces[t].cfg.qos)
TNext == \/ Is("sub") /\ Sub(ev.c, ev.conn)
         \/ Is("pubstart") /\ Pub(ev.v)
         \/ Is("taken") /\ ev.intact /\ (Take(ev.c, ev.v) \/ TakeLate(ev.c, ev.v))
         \/ (Is("ack") \/ Is("nack")) /\ Settle(ev.c, ev.v)
         \/ Is("drop") /\ Drop(ev.c)
         \/ Is("cut") /\ Cut(ev.conn)
         \/ Is("delete") /\ Delete
         \/ Is("ended") /\ End(ev.c)
         \/ Is("bad") /\ UNCHANGED vars
         \/ Is("rest") /\ (IF Traces[t].cfg.ends THEN AtRest ELSE Served) /\ ev.held = Cardinality(held) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
=============================================================================

---------------------------- MODULE TraceRegistry ----------------------------
(* Recorded histories of real connections and channel factories.            *)
EXTENDS Registry, TraceBase
TInit == TraceInit /\ Init
TNext ==
    \/ Is("declare") /\ Declare(ev.h, ev.n, ev.k)
    \/ Is("delete") /\ Delete(ev.n)
    \/ Is("get") /\ Get(ev.ch, ev.n, ev.k)
    \/ Is("issue") /\ Issue(ev.ch, ev.n, ev.k)
    \/ Is("sender") /\ Sender(ev.h, ev.ch)
    \/ Is("release") /\ Release(ev.ch)
    \/ Is("pub") /\ ev.ok /\ Publish(ev.h, ev.m)
    \/ Is("sub") /\ Subscribe(ev.c, ev.h, ev.s)
    \/ Is("receiver") /\ Receiver(ev.c, ev.ch, ev.s)
    \/ Is("take") /\ Take(ev.c, ev.m)
    \/ Is("nothing") /\ FindNothing(ev.c)
    \/ Is("drop") /\ DropConsumer(ev.c)
    \/ Is("drained") /\ Drained /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
=============================================================================

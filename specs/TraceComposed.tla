--------------------------- MODULE TraceComposed ---------------------------
EXTENDS Composed, TraceBase
TInit == Init /\ TraceInit
TNext ==
    \/ Is("begin") /\ Begin(ev.c, ev.how)
    \/ Is("invoke") /\ Invoke(ev.c, ev.k, ev.how)
    \/ Is("finish") /\ Finish(ev.c, ev.k, ev.r)
    \/ Is("return") /\ Return(ev.c, ev.r, Traces[t].cfg.n)
    \/ Is("cancel") /\ Cancel(ev.c)
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
=============================================================================

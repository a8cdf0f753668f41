-------------------------- MODULE TracePublishAll --------------------------
EXTENDS PublishAll, TraceBase
TInit == Init /\ TraceInit
TNext ==
    \/ Is("offer") /\ Offer(ev.k)
    \/ Is("offerend") /\ OfferEnd
    \/ Is("in") /\ Read(ev.k)
    \/ Is("inend") /\ ReadEnd
    \/ Is("inerr") /\ ReadError(ev.x)
    \/ Is("pub") /\ Start(ev.k, Traces[t].cfg.limit)
    \/ Is("done") /\ Complete(ev.k)
    \/ Is("fail") /\ Fail(ev.k, ev.x)
    \/ Is("ret") /\ Return
    \/ Is("rete") /\ ReturnError(ev.x)
    \/ Is("quiet") /\ Quiet /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
=============================================================================

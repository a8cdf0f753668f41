----------------------------- MODULE TraceWorker -----------------------------
EXTENDS Worker, TraceBase
Cfg == Traces[t].cfg
TInit == Init /\ TraceInit
TNext == \/ Silent /\ \E k \in q : TakeBad(k, Cfg.w)
         \/ Is("pub") /\ Publish(ev.k, ev.job, ev.bad)
         \/ Is("begin") /\ ev.name = ev.asked /\ Begin(ev.k, ev.a, Cfg.w)
         \/ Is("end") /\ End(ev.k, ev.out)
         \/ Is("result") /\ Result(ev.k, ev.job)
         \/ Is("error") /\ ev.class = "boom" /\ Error(ev.k, ev.class, ev.job)
         \/ Is("error") /\ ev.class # "boom" /\ \E k \in DOMAIN info : Error(k, ev.class, ev.job)
         \/ Is("abort") /\ Abort(ev.job)
         \/ Is("abortall") /\ AbortAll
         \/ Is("drop") /\ Drop(Cfg.w)
         \/ Is("quiet") /\ Quiet(SetOf(ev.signalled), Cfg.w)
         \/ Is("settled") /\ Settled
         \/ Is("stopped") /\ Stopped(ev.n, Cfg.w)
         \/ Is("alive") /\ Alive(ev.n)
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
=============================================================================

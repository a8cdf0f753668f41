---------------------------- MODULE TraceConfig -----------------------------
EXTENDS Config, TraceBase
Cfg == Traces[t].cfg
TInit == /\ TraceInit /\ cli = [x \in Names |-> Traces[t].cfg.cli[x]] /\ env = [x \in Names |-> Traces[t].cfg.env[x]]
         /\ conf = Default /\ built = {} /\ seen = {} /\ stage = "given"
TNext == \/ Is("refused") /\ Refuse
         \/ Is("parsed") /\ Parse([x \in Names |-> ev[x]])
         \/ Is("build") /\ Build(ev.who, ev.r)
         \/ Is("running") /\ Running(ev.n)
         \/ Is("task") /\ Sent(ev.at, ev.q, ev.f)
         \/ Is("taken") /\ Taken(ev.at, ev.q)
         \/ Is("answered") /\ Answered(ev.ok)
         \/ Is("parts") /\ Parts(ev.f)
         \/ Is("over") /\ Over
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
=============================================================================

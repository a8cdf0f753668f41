---------------------------- MODULE TraceTaskBus ----------------------------
EXTENDS TaskBus, TraceBase
TInit == TraceInit /\ Start(Traces[t].cfg.bus)
TNext == \/ Is("task") /\ Task(ev.m, ev.by, ev.q, ev.j)
         \/ Is("taketask") /\ TakeTask(ev.m, ev.by, ev.j)
         \/ Is("result") /\ Result(ev.m, ev.j)
         \/ Is("takeresult") /\ TakeResult(ev.m, ev.by)
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
=============================================================================

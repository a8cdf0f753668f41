--------------------------- MODULE TracePipeline ---------------------------
(* Recorded runs of real directives against the contract.                   *)
EXTENDS Pipeline, TraceBase
cfg == Traces[t].cfg
TInit == Init /\ TraceInit
TNext ==
    \/ Is("in") /\ Input(cfg, ev.k)
    \/ Is("inend") /\ InputEnd
    \/ Is("inerr") /\ InputError(ev.x)
    \/ Is("task") /\ ev.f # "cat" /\ MapTask(cfg, ev.j, ev.f, ev.v)
    \/ Is("task") /\ ev.f = "cat" /\ Combine(cfg, ev.j, ev.a, ev.b)
    \/ Is("res") /\ Result(cfg, ev.j, ev.v)
    \/ Is("fail") /\ Failure(ev.j, ev.x)
    \/ Is("ret") /\ Return(cfg, ev.v)
    \/ Is("rete") /\ ReturnError(cfg, ev.x)
    \/ Is("out") /\ Out(cfg, ev.k, ev.v)
    \/ Is("oute") /\ OutError(cfg, ev.x)
    \/ Is("outend") /\ OutEnd(cfg)
    \/ Is("quiet") /\ Quiet(cfg) /\ UNCHANGED vars
    \/ Is("dropped") /\ over = "no" /\ over' = "dropped" /\ UNCHANGED <<inp, ended, inerr, tasks, avail, pieces, errs, outs, outerrs>>
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
=============================================================================

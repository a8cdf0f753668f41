----------------------------- MODULE TraceRetry -----------------------------
EXTENDS Retry, TraceBase
Cfg == Traces[t].cfg
TInit == /\ TraceInit /\ clock = 0
         /\ \/ Cfg.mode = "op" /\ InitOp
            \/ Cfg.mode = "strategy" /\ InitStrategy(Cfg.pol)
            \/ Cfg.mode = "error" /\ InitError(Cfg.err)
TNext == /\ UNCHANGED clock
         /\ \/ Is("attempt") /\ Attempt(ev.t, Cfg.traced)
            \/ Is("ok") /\ Succeed
            \/ Is("fail") /\ Fail(ev.f, ev.t)
            \/ Is("trace") /\ Cfg.traced /\ Trace(ev.x)
            \/ Is("ret") /\ Return
            \/ Is("rete") /\ ReturnError(ev.x, ev.k, ev.fs, ev.t)
            \/ Is("undecodable") /\ Cfg.payload # "good" /\ Undecodable(ev.k, ev.fs)
TSpec == TInit /\ [][TNext]_<<vars, clock, t, i>>
=============================================================================

---------------------------- MODULE TraceSharing ----------------------------
EXTENDS Sharing, TraceBase
TInit == Init /\ TraceInit
TNext == \/ Is("task") /\ ev.d # 999 /\ Task(ev.d, ev.job)
         \/ (Is("ret") \/ Is("rete") \/ Is("outend") \/ Is("dropped")) /\ Over(ev.d)
         \/ Is("probe") /\ Probe(ev.job, ev.alive)
         \/ (\E e \in {"in", "inend", "inerr", "res", "fail", "out", "oute", "quiet", "over"} : Is(e)) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
=============================================================================

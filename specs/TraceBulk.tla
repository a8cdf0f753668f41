------------------------------ MODULE TraceBulk ------------------------------
(* Recorded outcomes of directives over many elements.                      *)
EXTENDS TraceBase
VARIABLE dummy
B == INSTANCE Bulk WITH N <- 0, Kinds <- {}, Defect <- "none", kind <- dummy, n <- dummy, left <- dummy, todo <- dummy,
                        pieces <- dummy, calls <- dummy, maps <- dummy, outs <- dummy, over <- dummy
cfg == Traces[t].cfg
TInit == dummy = 0 /\ TraceInit
TNext == /\ \/ Is("outcome") /\ ~cfg.fail
               /\ [calls |-> ev.calls, maps |-> ev.maps, value |-> ev.value, outs |-> ev.outs] = B!Expected(cfg.kind, cfg.n)
               /\ ev.wrong = 0
            \* an operation failed: an error, and no value
            \/ Is("error") /\ cfg.fail
         /\ UNCHANGED dummy
TSpec == TInit /\ [][TNext]_<<dummy, t, i>>
=============================================================================

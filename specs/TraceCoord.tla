----------------------------- MODULE TraceCoord -----------------------------
(* Recorded runs of the real coordinated channel against its contract.      *)
EXTENDS Coord, TraceBase
TInit == Init /\ TraceInit
W == SetOf(ev.w)
TNext ==
    \/ Is("pubc") /\ PublishCall(ev.m, W)
    \/ Is("tx") /\ Transmit(ev.m, ev.ok, W)
    \/ Is("pubr") /\ PublishReturn(ev.m, ev.r, W)
    \/ Is("closec") /\ CloseCall(W)
    \/ Is("closer") /\ ev.ok /\ CloseReturn(W)
    \/ Is("ackc") /\ AckCall(ev.k, ev.m, W)
    \/ Is("ackr") /\ ev.ok /\ AckReturn(ev.k, W)
    \/ Is("pollc") /\ PollCall(ev.c, W)
    \/ Is("yield") /\ Yield(ev.m, W)
    \/ Is("wait") /\ Wait(W)
    \/ Is("end") /\ End(W)
    \/ Is("cut") /\ Cut(W)
    \/ Is("wake") /\ Notify(W)
    \/ Is("over") /\ UNCHANGED vars /\ Quiet /\ ended
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
=============================================================================

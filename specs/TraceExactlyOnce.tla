-------------------------- MODULE TraceExactlyOnce --------------------------
(* Recorded runs of the real exactly-once queue against its contract.       *)
EXTENDS ExactlyOnce, TraceBase
VARIABLE pend   \* polls in progress in multi-threaded runs: <<consumer, message it will return>>

TInit == Init /\ TraceInit /\ pend = {}
W == SetOf(ev.w)
Keep == UNCHANGED pend
Free == "free" \in DOMAIN Traces[t].cfg

TNext ==
    \/ Is("substart") /\ Keep /\ UNCHANGED vars
    \/ Is("subend") /\ Keep /\ Declare(ev.c)
    \/ Is("pubstart") /\ Keep /\ PublishStart(ev.m)
    \/ Is("effect") /\ Keep /\ PublishEffect(ev.m)
    \/ Free /\ Silent /\ Keep /\ \E m \in started : PublishEffect(m)
    \/ Is("pubend") /\ Keep /\ ev.ok /\ PublishEnd(ev.m, W)
    \/ Is("look") /\ Keep /\ Look(ev.c)
    \/ Is("take") /\ Keep /\ Take(ev.c, ev.m, W)
    \/ Is("nothing") /\ Keep /\ FindNothing(ev.c, W)
    \/ Is("drop") /\ Keep /\ Drop(ev.c, W)
    \/ Is("wake") /\ Keep /\ Notify(W)
    (* `free`: searched for, otherwise named by an event                    *)
    (* multi-threaded runs: the effect of a poll is between its two events  *)
    \/ Is("pollinv") /\ UNCHANGED vars
         /\ pend' = IF ev.m > 0 THEN pend \cup {<<ev.c, ev.m>>} ELSE pend
    \/ pend # {} /\ Silent /\ \E x \in pend : Take(x[1], x[2], {}) /\ pend' = pend \ {x}
    \/ Is("pollres") /\ Keep /\ UNCHANGED vars /\ <<ev.c, ev.m>> \notin pend
    \/ Is("pollnone") /\ Keep /\ UNCHANGED vars
    \/ Is("quiet") /\ Keep /\ UNCHANGED vars /\ Quiet
    (* everything has been polled out by then                               *)
    \/ Is("drained") /\ Keep /\ UNCHANGED vars /\ Quiet /\ queue = <<>>
TSpec == TInit /\ [][TNext]_<<vars, t, i, pend>>
InvOk == Inv
=============================================================================

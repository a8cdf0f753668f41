--------------------------- MODULE TraceBroadcast ---------------------------
(* Recorded runs of the real broadcast queue against its contract.          *)
EXTENDS Broadcast, TraceBase
VARIABLE pend   \* polls in progress in multi-threaded runs: <<handle, message it will return>>

TInit == TraceInit /\ Init /\ mode = Traces[t].cfg.deliv /\ pend = {}
W == SetOf(ev.w)
Keep == UNCHANGED pend
Free == "free" \in DOMAIN Traces[t].cfg

(* Steps without an event are only needed right before certain events, and  *)
(* (if the run ends with everything taken) a message need not be delivered  *)
(* to a name that never takes it; `tk` lists who takes what.                *)
Due == More /\ ev.e \in {"pubend", "subend", "take", "pollres"}
Useful(m, n) == "tk" \in DOMAIN Traces[t].cfg => \E k \in 1..Len(Traces[t].cfg.tk) : Traces[t].cfg.tk[k] = <<m, n>>

TNext ==
    \/ Is("substart") /\ Keep /\ SubStart(ev.c, ev.n)
    \/ Is("subend") /\ Keep /\ SubEnd(ev.c, ev.n, W)
    \/ Is("pubstart") /\ Keep /\ PublishStart(ev.p, ev.m)
    \/ Is("pubend") /\ Keep /\ ev.ok /\ PublishEnd(ev.m, W)
    \/ Is("look") /\ Keep /\ Look(ev.c)
    \/ Is("take") /\ Keep /\ Take(ev.c, ev.m, W)
    \/ Is("nothing") /\ Keep /\ FindNothing(ev.c, W)
    \/ Is("drop") /\ Keep /\ Drop(ev.c, W)
    \/ Is("wake") /\ Keep /\ Notify(W)
    (* steps that leave no event: named by a hint, or searched for          *)
    \/ Is("deliver") /\ Keep /\ Deliver(ev.m, ev.n)
    \/ Is("retain") /\ Keep /\ Retain(ev.m)
    \/ Is("replay") /\ Keep /\ Replay(ev.n)
    \/ Is("forget") /\ Keep /\ Forget(ev.m)
    \/ /\ Free /\ Due /\ Silent /\ Keep
       /\ \/ \E x \in active : Retain(x.m) \/ \E n \in Names : Useful(x.m, n) /\ Deliver(x.m, n)
          \/ \E x \in joining : retained # <<>> /\ Useful(Head(retained), x[2]) /\ Replay(x[2])
          \/ \E m \in Range(retained) : Forget(m)
    (* multi-threaded runs: the effect of a poll is between its two events  *)
    \/ Is("pollinv") /\ UNCHANGED vars
         /\ pend' = IF ev.m > 0 THEN pend \cup {<<ev.c, ev.m>>} ELSE pend
    \/ pend # {} /\ Due /\ Silent /\ \E x \in pend : Take(x[1], x[2], {}) /\ pend' = pend \ {x}
    \/ Is("pollres") /\ Keep /\ UNCHANGED vars /\ <<ev.c, ev.m>> \notin pend
    \/ Is("pollnone") /\ Keep /\ UNCHANGED vars
    \/ Is("quiet") /\ Keep /\ UNCHANGED vars /\ Quiet
    (* everything delivered has been polled out by then                     *)
    \/ Is("drained") /\ Keep /\ UNCHANGED vars /\ Quiet /\ \A n \in subs : avail[n] = <<>>
TSpec == TInit /\ [][TNext]_<<vars, t, i, pend>>
=============================================================================

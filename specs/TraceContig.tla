---------------------------- MODULE TraceContig ----------------------------
(* Recorded runs of the real assembler against its contract.  The call      *)
(* events carry what the operation is going to return, which only prunes    *)
(* the search for the instants of the effects.                              *)
EXTENDS Contig, TraceBase
Val(x) == [lo |-> x[1], hi |-> x[2], id |-> x[3]]
TInit == /\ TraceInit
         /\ InitWith({Val(x) : x \in SetOf(Traces[t].cfg.init)})
Result(k) == LET S == {j \in (i + 1)..Len(Traces[t].ev) : Traces[t].ev[j].e = "return" /\ Traces[t].ev[j].k = k}
             IN CHOOSE j \in S : \A j2 \in S : j <= j2
TNext ==
    \/ Is("call") /\ Call(ev.k, ev.kind, Val(ev.v), ev.key)
    \/ Is("return") /\ Return(ev.k, Val(ev.r), ev.lower)
    \/ Is("over") /\ UNCHANGED vars /\ stored = {} /\ ops = Empty
    \/ Silent /\ \E k \in DOMAIN ops :
         /\ ops[k].got = Nothing /\ ~ops[k].put
         /\ LET r == Val(Traces[t].ev[Result(k)].r) IN
              IF r # Nothing THEN Take(k, r) ELSE Store(k)
TSpec == TInit /\ [][TNext]_<<vars, t, i>>
=============================================================================

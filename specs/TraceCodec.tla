----------------------------- MODULE TraceCodec -----------------------------
EXTENDS Codec, TraceBase
Cfg == Traces[t].cfg
TInit == TraceInit /\ f = <<Cfg.f[1], Cfg.f[2]>> /\ sent = <<>> /\ harm = "no" /\ got = <<>>
(* Recorded values abbreviate what is long.                                *)
RECURSIVE Nest(_, _), Full(_)
Nest(k, v) == IF k = 0 THEN v ELSE <<"new", Nest(k - 1, v)>>
Full(v) ==
    LET k == v[1]
    IN CASE k = "textrun" -> <<"text", [j \in 1..v[3] |-> v[2]]>>
         [] k = "blobrun" -> <<"blob", [j \in 1..v[3] |-> v[2]]>>
         [] k = "rep" -> LET x == Full(v[3]) IN <<"list", [j \in 1..v[2] |-> x]>>
         [] k = "deep" -> Nest(v[2], Full(v[3]))
         [] k \in {"opt", "new", "ok", "err"} -> IF Len(v) = 1 THEN v ELSE <<k, Full(v[2])>>
         [] k \in {"pair", "rec"} -> <<k, Full(v[2]), Full(v[3])>>
         [] k = "list" -> <<k, [j \in 1..Len(v[2]) |-> Full(v[2][j])]>>
         [] k = "dict" -> <<k, [j \in 1..Len(v[2]) |-> <<v[2][j][1], Full(v[2][j][2])>>]>>
         [] k = "oo" -> IF Len(v) = 1 THEN v ELSE IF Len(v[2]) = 1 THEN v ELSE <<k, <<"s", Full(v[2][2])>>>>
         [] OTHER -> v
(* Bytes seen on the way are what the format says for the value in them, to the last one. *)
Seen(v) == LET r == Decode(f[2], ev.b) IN IF Failed(r) THEN FALSE ELSE r[1] = AsKept(f[2], Full(v)) /\ r[2] = Len(ev.b) + 1
TNext == \/ Is("send") /\ Send(ev.v)
         \/ Is("bytes") /\ sent # <<>> /\ Seen(IF ev.part = 0 THEN sent[1] ELSE sent[1][2][ev.part]) /\ UNCHANGED cvars
         \/ Is("cut") /\ Harm("cut")
         \/ Is("changed") /\ Harm("changed")
         \/ Is("got") /\ Arrive(ev.v)
         \/ Is("refused") /\ Refuse
         (* bytes from anywhere, given to everything that reads *)
         \/ Is("read") /\ Cfg.garbage /\ UNCHANGED cvars
         \/ Is("notread") /\ Cfg.garbage /\ UNCHANGED cvars
         \/ Is("end") /\ sent = <<>> /\ UNCHANGED cvars
TSpec == TInit /\ [][TNext]_<<cvars, t, i>>
=============================================================================

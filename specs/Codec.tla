------------------------------- MODULE Codec --------------------------------
(* What becomes of a value on its way through a channel (C29): it arrives   *)
(* as what it was.  A message that has lost its end is refused, it is never *)
(* taken for another value.  Where a format cannot tell two values apart,   *)
(* the value arrives as what the format keeps of it (AsKept in Wire).       *)
EXTENDS Wire
CONSTANTS Formats, Values, Deep
VARIABLES f,      \* the formats it is written in: the envelope's and its own
          sent,   \* the values handed over that have not arrived
          harm,   \* what happened to the first of them: "no", "cut", "changed"
          got     \* the last arrival: <<>> nothing, <<"refused">>, <<"value", v>>
cvars == <<f, sent, harm, got>>
CodecInit == f \in Formats \X Formats /\ sent = <<>> /\ harm = "no" /\ got = <<>>
Send(v) == sent' = Append(sent, v) /\ UNCHANGED <<f, harm, got>>
Harm(h) == /\ harm = "no" /\ sent # <<>> /\ h \in {"cut", "changed"} /\ harm' = h /\ UNCHANGED <<f, sent, got>>
Arrive(v) == /\ sent # <<>> /\ harm # "cut" /\ (harm = "changed" \/ v = AsKept(f[2], sent[1]))
             /\ got' = <<"value", v>> /\ sent' = Tail(sent) /\ harm' = "no" /\ UNCHANGED f
(* Only nesting beyond what a reader is prepared to follow may be refused.  *)
TooDeep(v) == v[1] = "deep" /\ v[2] > Deep
Refuse == /\ sent # <<>> /\ (harm # "no" \/ TooDeep(sent[1]))
          /\ got' = <<"refused">> /\ sent' = Tail(sent) /\ harm' = "no" /\ UNCHANGED f
Deliver == sent # <<>> /\ Arrive(AsKept(f[2], sent[1]))
CodecNext == \/ (sent = <<>> /\ got = <<>> /\ \E v \in Values : Send(v))
             \/ Harm("cut") \/ Refuse \/ Deliver
CodecSpec == CodecInit /\ [][CodecNext]_cvars /\ WF_cvars(Refuse \/ Deliver)
(* Seen by the two ends only.                                               *)
Faithful == [][(got' # got /\ got'[1] = "value") => (sent # <<>> /\ got'[2] = AsKept(f[2], sent[1]))]_cvars
Settled == sent # <<>> ~> got # <<>>
=============================================================================

----------------------------- MODULE CodecImpl ------------------------------
(* A value is written in its own format, the bytes are put into an envelope *)
(* that names the format, and the envelope is written in the format of the  *)
(* connection; the other end undoes both.  Either may lose its end.         *)
EXTENDS Codec, CodecValues
VARIABLES wire, inner, stage
ivars == <<f, sent, harm, got, wire, inner, stage>>
Number(g) == IF g = "postcard" THEN 0 ELSE 1
Envelope(b) == <<"rec", <<"u8", 0, Bits(Number(f[2]))>>, <<"blob", b>>>>
Init == CodecInit /\ wire = <<>> /\ inner = <<>> /\ stage = "idle"
Write(v) == /\ stage = "idle" /\ got = <<>> /\ Send(v) /\ inner' = Encode(f[2], v) /\ stage' = "written" /\ UNCHANGED wire
Post == /\ stage = "written" /\ wire' = Encode(f[1], Envelope(inner)) /\ inner' = <<>> /\ stage' = "posted" /\ UNCHANGED cvars
CutInner == /\ stage = "written" /\ Harm("cut") /\ UNCHANGED <<wire, stage>>
            /\ \E n \in 0..(Len(inner) - 1) : inner' = SubSeq(inner, 1, n)
CutWire == /\ stage = "posted" /\ Harm("cut") /\ UNCHANGED <<inner, stage>>
           /\ \E n \in 0..(Len(wire) - 1) : wire' = SubSeq(wire, 1, n)
Opened == LET e == Decode(f[1], wire)
          IN IF Failed(e) THEN Fail
             ELSE IF e[1][2][1] # "u8" \/ e[1][3][1] # "blob" THEN Fail
             ELSE LET g == IF Defect = "reader's format" THEN f[1] ELSE IF e[1][2][3] = <<>> THEN "postcard" ELSE "cbor"
                      b == e[1][3][2]
                      r == Decode(g, IF Defect = "filled up" THEN b \o <<0, 0, 0, 0, 0, 0, 0, 0>> ELSE b)
                  IN IF Failed(r) THEN Fail ELSE r
Read == /\ stage = "posted" /\ wire' = <<>> /\ stage' = "idle" /\ UNCHANGED <<f, inner>>
        /\ got' = (IF Failed(Opened) THEN <<"refused">> ELSE <<"value", Opened[1]>>)
        /\ sent' = Tail(sent) /\ harm' = "no"
Next == (\E v \in Values : Write(v)) \/ Post \/ CutInner \/ CutWire \/ Read
Spec == Init /\ [][Next]_ivars /\ WF_ivars(Post) /\ WF_ivars(Read)
Contract == CodecSpec
(* The formats themselves: what is written is read back, to the last byte,  *)
(* and nothing that has lost its end is read at all.                        *)
Whole == (stage = "written" /\ harm = "no") =>
            LET r == Decode(f[2], inner) IN ~Failed(r) /\ r[1] = AsKept(f[2], sent[1]) /\ r[2] = Len(inner) + 1
=============================================================================

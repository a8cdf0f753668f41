-------------------------------- MODULE Wire --------------------------------
(* The two formats a value can travel in, byte by byte.                     *)
(*                                                                          *)
(* A value is a tuple whose first component says what it is.  Integers are  *)
(* <<type, s, m>> with m the bits of the magnitude, least significant       *)
(* first: m if s = 0, -(m + 1) if s = 1.  Texts, characters and blobs are   *)
(* sequences of bytes, floats the eight bytes of the double they denote.    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Defect       \* a mistake of the mechanism, or "none"

Kinds == <<"leaf", "unit", "bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64",
           "char", "text", "blob", "opt", "pair", "list", "dict", "rec", "new", "res", "ou", "oo">>
Unsigned == {"u8", "u16", "u32", "u64", "u128"}
Signed == {"i8", "i16", "i32", "i64", "i128"}
KindOf(v) == IF v[1] \in {"ok", "err"} THEN "res" ELSE v[1]
IndexOf(k) == (CHOOSE n \in 1..Len(Kinds) : Kinds[n] = k) - 1
NameOf(k) == <<65 + IndexOf(k)>>

(* ---- bits ------------------------------------------------------------- *)
Pow(n) == 2 ^ n
Fail == <<>>
Failed(r) == Len(r) = 0
RECURSIVE Strip(_)
Strip(m) == IF Len(m) = 0 THEN m ELSE IF m[Len(m)] = 1 THEN m ELSE Strip(SubSeq(m, 1, Len(m) - 1))
RECURSIVE Nat0(_)
Nat0(m) == IF Len(m) = 0 THEN 0 ELSE Head(m) + 2 * Nat0(Tail(m))
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN <<>> ELSE <<n % 2>> \o Bits(n \div 2)
ByteBits(b, n) == [k \in 1..n |-> (b \div Pow(k - 1)) % 2]
Small(m) == Len(m) <= 24
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN <<>> ELSE <<0>> \o Zeros(n - 1)
Pad(m, n) == m \o Zeros(n - Len(m))
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
RECURSIVE Flat(_)
Flat(s) == IF Len(s) = 0 THEN <<>> ELSE Head(s) \o Flat(Tail(s))
(* A float of e exponent bits and the given bits (most significant first), *)
(* as the eight bytes of the double of that value.                          *)
Widen(bits, e) ==
    LET m == SubSeq(bits, 2 + e, Len(bits))
        x == Nat0(Rev(SubSeq(bits, 2, 1 + e)))
        bias == Pow(e - 1) - 1
        ones == {k \in 1..Len(m) : m[k] = 1}
        k1 == CHOOSE k \in ones : \A j \in ones : k <= j
        parts == IF x = Pow(e) - 1 THEN <<2047, m>>
                 ELSE IF x > 0 THEN <<x + 1023 - bias, m>>
                 ELSE IF ones = {} THEN <<0, <<>>>>
                 ELSE IF e = 11 THEN <<0, m>>
                 ELSE <<1024 - bias - k1, SubSeq(m, k1 + 1, Len(m))>>
        all == <<bits[1]>> \o Rev(Pad(Bits(parts[1]), 11)) \o Pad(parts[2], 52)
    IN [k \in 1..8 |-> Nat0(Rev(SubSeq(all, 8 * k - 7, 8 * k)))]
BytesBits(bytes) == Flat([k \in 1..Len(bytes) |-> Rev(ByteBits(bytes[k], 8))])

(* ---- Postcard: no names, lengths and integers in groups of seven bits -- *)
RECURSIVE PVar(_, _)
PVar(b, p) == IF p > Len(b) THEN Fail
              ELSE IF b[p] < 128 THEN <<ByteBits(b[p], 7), p + 1>>
              ELSE LET r == PVar(b, p + 1) IN IF Failed(r) THEN Fail ELSE <<ByteBits(b[p], 7) \o r[1], r[2]>>
PNat(b, p) == LET r == PVar(b, p) IN IF Failed(r) THEN Fail ELSE IF Small(Strip(r[1])) THEN <<Nat0(Strip(r[1])), r[2]>> ELSE Fail
Raw(b, p, n) == IF p + n - 1 > Len(b) THEN Fail ELSE <<SubSeq(b, p, p + n - 1), p + n>>
PRaw(b, p) == LET n == PNat(b, p) IN IF Failed(n) THEN Fail ELSE Raw(b, n[2], n[1])
With(r, v) == IF Failed(r) THEN Fail ELSE <<v, r[2]>>
Zig(m) == IF Len(m) = 0 THEN <<0, <<>>>> ELSE <<m[1], Strip(Tail(m))>>

RECURSIVE PDec(_, _), PSeq(_, _, _), PDict(_, _, _)
PSeq(b, p, n) == IF n = 0 THEN <<<<>>, p>>
                 ELSE LET x == PDec(b, p)
                          r == PSeq(b, x[2], n - 1)
                      IN IF Failed(x) THEN Fail ELSE IF Failed(r) THEN Fail ELSE <<<<x[1]>> \o r[1], r[2]>>
PDict(b, p, n) == IF n = 0 THEN <<<<>>, p>>
                  ELSE LET k == PRaw(b, p)
                           x == PDec(b, k[2])
                           r == PDict(b, x[2], n - 1)
                       IN IF Failed(k) THEN Fail ELSE IF Failed(x) THEN Fail ELSE IF Failed(r) THEN Fail
                          ELSE <<<<<<k[1], x[1]>>>> \o r[1], r[2]>>
PDec(b, p) ==
    LET i == PNat(b, p)
        k == Kinds[i[1] + 1]
        q == i[2]
        n == PNat(b, q)
        raw == PRaw(b, q)
        var == PVar(b, q)
        one == PSeq(b, q, 1)
        two == PSeq(b, q, 2)
        byte == Raw(b, q, 1)
    IN IF Failed(i) THEN Fail ELSE IF i[1] >= Len(Kinds) THEN Fail
       ELSE CASE k = "leaf" -> <<<<"leaf">>, q>>
              [] k = "unit" -> <<<<"unit">>, q>>
              [] k = "bool" -> IF Failed(byte) THEN Fail ELSE IF byte[1][1] > 1 THEN Fail ELSE With(byte, <<k, byte[1][1]>>)
              [] k = "u8" -> IF Failed(byte) THEN Fail ELSE With(byte, <<k, 0, Strip(ByteBits(byte[1][1], 8))>>)
              [] k = "i8" -> IF Failed(byte) THEN Fail
                             ELSE LET x == byte[1][1] IN With(byte, <<k, x \div 128, Strip(ByteBits(IF x < 128 THEN x ELSE 255 - x, 8))>>)
              [] k \in Unsigned \ {"u8"} -> IF Failed(var) THEN Fail ELSE With(var, <<k, 0, Strip(var[1])>>)
              [] k \in Signed \ {"i8"} -> IF Failed(var) THEN Fail ELSE With(var, <<k>> \o Zig(Strip(var[1])))
              [] k = "f32" -> LET r == Raw(b, q, 4) IN IF Failed(r) THEN Fail ELSE With(r, <<k, Widen(BytesBits(Rev(r[1])), 8)>>)
              [] k = "f64" -> LET r == Raw(b, q, 8) IN IF Failed(r) THEN Fail ELSE With(r, <<k, Rev(r[1])>>)
              [] k \in {"char", "text", "blob"} -> IF Failed(raw) THEN Fail ELSE With(raw, <<k, raw[1]>>)
              [] k = "opt" -> IF Failed(byte) THEN Fail ELSE IF byte[1][1] = 0 THEN <<<<k>>, q + 1>>
                              ELSE IF byte[1][1] > 1 THEN Fail
                              ELSE LET r == PDec(b, q + 1) IN IF Failed(r) THEN Fail ELSE With(r, <<k, r[1]>>)
              [] k \in {"pair", "rec"} -> IF Failed(two) THEN Fail ELSE With(two, <<k>> \o two[1])
              [] k = "new" -> IF Failed(one) THEN Fail ELSE With(one, <<k>> \o one[1])
              [] k = "list" -> IF Failed(n) THEN Fail
                               ELSE LET r == PSeq(b, n[2], n[1]) IN IF Failed(r) THEN Fail ELSE With(r, <<k, r[1]>>)
              [] k = "dict" -> IF Failed(n) THEN Fail
                               ELSE LET r == PDict(b, n[2], n[1]) IN IF Failed(r) THEN Fail ELSE With(r, <<k, r[1]>>)
              [] k = "res" -> IF Failed(n) THEN Fail ELSE IF n[1] > 1 THEN Fail
                              ELSE LET r == PDec(b, n[2])
                                   IN IF Failed(r) THEN Fail ELSE With(r, <<IF n[1] = 0 THEN "ok" ELSE "err", r[1]>>)
              [] k = "ou" -> IF Failed(byte) THEN Fail ELSE IF byte[1][1] > 1 THEN Fail ELSE With(byte, <<k, byte[1][1]>>)
              [] k = "oo" -> IF Failed(byte) THEN Fail
                             ELSE IF byte[1][1] = 0 THEN <<<<k>>, q + 1>>
                             ELSE IF q + 1 > Len(b) THEN Fail
                             ELSE IF b[q + 1] = 0 THEN <<<<k, <<"n">>>>, q + 2>>
                             ELSE LET r == PDec(b, q + 2) IN IF Failed(r) THEN Fail ELSE With(r, <<k, <<"s", r[1]>>>>)

PEncVar(m0) ==
    LET m == IF Defect = "varint_short" THEN SubSeq(m0, 1, IF Len(m0) > 14 THEN 14 ELSE Len(m0)) ELSE m0
        n == IF Len(m) = 0 THEN 1 ELSE (Len(m) + 6) \div 7
        all == Pad(m, 7 * n)
    IN [k \in 1..n |-> Nat0(SubSeq(all, 7 * k - 6, 7 * k)) + (IF k < n THEN 128 ELSE 0)]
PEncNat(n) == PEncVar(Bits(n))
PEncRaw(s) == PEncNat(Len(s)) \o s
Narrow(bytes) ==      \* the four bytes of a float given by its double, normal numbers and zero
    LET bits == BytesBits(bytes)
        x == Nat0(Rev(SubSeq(bits, 2, 12)))
        all == <<bits[1]>> \o Rev(Pad(Bits(IF x = 0 THEN 0 ELSE x - 1023 + 127), 8)) \o SubSeq(bits, 13, 35)
    IN [k \in 1..4 |-> Nat0(Rev(SubSeq(all, 8 * k - 7, 8 * k)))]
RECURSIVE PEnc(_), PEncAll(_)
PEncAll(s) == IF Len(s) = 0 THEN <<>> ELSE PEnc(Head(s)) \o PEncAll(Tail(s))
PEnc(v) ==
    LET k == KindOf(v)
    IN PEncNat(IndexOf(k)) \o
       (CASE k \in {"leaf", "unit"} -> <<>>
          [] k \in {"bool", "ou"} -> <<v[2]>>
          [] k = "u8" -> <<Nat0(v[3])>>
          [] k = "i8" -> <<IF v[2] = 0 THEN Nat0(v[3]) ELSE 255 - Nat0(v[3])>>
          [] k \in Unsigned \ {"u8"} -> PEncVar(v[3])
          [] k \in Signed \ {"i8"} -> PEncVar(IF Defect = "sign_lost" THEN Strip(<<0>> \o v[3]) ELSE Strip(<<v[2]>> \o v[3]))
          [] k = "f32" -> Rev(Narrow(v[2]))
          [] k = "f64" -> Rev(v[2])
          [] k \in {"char", "text", "blob"} -> PEncRaw(v[2])
          [] k = "opt" -> IF Len(v) = 1 THEN <<0>> ELSE <<1>> \o PEnc(v[2])
          [] k \in {"pair", "rec"} -> IF Defect = "swapped" /\ k = "rec" THEN PEnc(v[3]) \o PEnc(v[2]) ELSE PEnc(v[2]) \o PEnc(v[3])
          [] k = "new" -> PEnc(v[2])
          [] k = "list" -> PEncNat(Len(v[2])) \o PEncAll(v[2])
          [] k = "dict" -> PEncNat(Len(v[2])) \o Flat([j \in 1..Len(v[2]) |-> PEncRaw(v[2][j][1]) \o PEnc(v[2][j][2])])
          [] k = "res" -> <<IF v[1] = "ok" THEN 0 ELSE 1>> \o PEnc(v[2])
          [] k = "oo" -> IF Len(v) = 1 THEN <<0>> ELSE IF Len(v[2]) = 1 THEN <<1, 0>> ELSE <<1, 1>> \o PEnc(v[2][2]))

(* ---- CBOR: every item starts with its major type and a number ---------- *)
Width(info) == CASE info = 24 -> 1 [] info = 25 -> 2 [] info = 26 -> 4 [] info = 27 -> 8 [] OTHER -> 0
(* <<major, additional information, its bits, next position>>               *)
CHead(b, p) ==
    IF p > Len(b) THEN Fail
    ELSE LET info == b[p] % 32
             w == Width(info)
         IN IF info > 27 THEN Fail ELSE IF p + w > Len(b) THEN Fail
            ELSE <<b[p] \div 32, info,
                   IF w = 0 THEN Bits(info) ELSE Strip(Flat([j \in 1..w |-> ByteBits(b[p + w + 1 - j], 8)])), p + 1 + w>>
CNat(h, major) == IF Failed(h) THEN Fail ELSE IF h[1] # major THEN Fail ELSE IF Small(h[3]) THEN <<Nat0(h[3]), h[4]>> ELSE Fail
CRaw(b, p, major) == LET n == CNat(CHead(b, p), major) IN IF Failed(n) THEN Fail ELSE Raw(b, n[2], n[1])
IsNull(b, p) == IF p > Len(b) THEN FALSE ELSE b[p] = 246
(* An integer: a number, or a blob tagged as a large one.                   *)
CInt(b, p) ==
    LET h == CHead(b, p)
        r == CRaw(b, h[4], 2)
        big == Strip(Flat([j \in 1..Len(r[1]) |-> ByteBits(r[1][Len(r[1]) + 1 - j], 8)]))
    IN IF Failed(h) THEN Fail
       ELSE IF h[1] \in {0, 1} THEN <<<<h[1], h[3]>>, h[4]>>
       ELSE IF h[1] = 6 /\ h[3] \in {<<0, 1>>, <<1, 1>>} THEN (IF Failed(r) THEN Fail ELSE <<<<h[3][1], big>>, r[2]>>)
       ELSE Fail
CFloat(b, p) ==
    IF p > Len(b) THEN Fail
    ELSE IF b[p] \notin {249, 250, 251} THEN Fail
    ELSE LET e == CASE b[p] = 249 -> 5 [] b[p] = 250 -> 8 [] OTHER -> 11
             r == Raw(b, p + 1, CASE b[p] = 249 -> 2 [] b[p] = 250 -> 4 [] OTHER -> 8)
         IN IF Failed(r) THEN Fail ELSE With(r, Widen(BytesBits(r[1]), e))
RECURSIVE CDec(_, _), CSeq(_, _, _), CDict(_, _, _)
CSeq(b, p, n) == IF n = 0 THEN <<<<>>, p>>
                 ELSE LET x == CDec(b, p)
                          r == CSeq(b, x[2], n - 1)
                      IN IF Failed(x) THEN Fail ELSE IF Failed(r) THEN Fail ELSE <<<<x[1]>> \o r[1], r[2]>>
CDict(b, p, n) == IF n = 0 THEN <<<<>>, p>>
                  ELSE LET k == CRaw(b, p, 3)
                           x == CDec(b, k[2])
                           r == CDict(b, x[2], n - 1)
                       IN IF Failed(k) THEN Fail ELSE IF Failed(x) THEN Fail ELSE IF Failed(r) THEN Fail
                          ELSE <<<<<<k[1], x[1]>>>> \o r[1], r[2]>>
(* The content of a variant that has one.                                   *)
CBody(b, q, k) ==
    LET h == CHead(b, q)
        int == CInt(b, q)
        arr == CNat(h, 4)
        map == CNat(h, 5)
    IN CASE k = "unit" -> IF IsNull(b, q) THEN <<<<k>>, q + 1>> ELSE Fail
         [] k = "bool" -> IF q > Len(b) THEN Fail ELSE IF b[q] \in {244, 245} THEN <<<<k, b[q] - 244>>, q + 1>> ELSE Fail
         [] k \in Unsigned -> IF Failed(int) THEN Fail ELSE IF int[1][1] # 0 THEN Fail ELSE With(int, <<k>> \o int[1])
         [] k \in Signed -> IF Failed(int) THEN Fail ELSE With(int, <<k>> \o int[1])
         [] k \in {"f32", "f64"} -> LET r == CFloat(b, q) IN IF Failed(r) THEN Fail ELSE With(r, <<k, r[1]>>)
         [] k \in {"char", "text"} -> LET r == CRaw(b, q, 3) IN IF Failed(r) THEN Fail ELSE With(r, <<k, r[1]>>)
         [] k = "blob" -> LET r == CRaw(b, q, 2) IN IF Failed(r) THEN Fail ELSE With(r, <<k, r[1]>>)
         [] k = "opt" -> IF IsNull(b, q) THEN <<<<k>>, q + 1>>
                         ELSE LET r == CDec(b, q) IN IF Failed(r) THEN Fail ELSE With(r, <<k, r[1]>>)
         [] k = "pair" -> IF Failed(arr) THEN Fail ELSE IF arr[1] # 2 THEN Fail
                          ELSE LET r == CSeq(b, arr[2], 2) IN IF Failed(r) THEN Fail ELSE With(r, <<k>> \o r[1])
         [] k = "rec" -> IF Failed(map) THEN Fail ELSE IF map[1] # 2 THEN Fail
                         ELSE LET r == CDict(b, map[2], 2)
                              IN IF Failed(r) THEN Fail
                                 ELSE IF {r[1][1][1], r[1][2][1]} # {<<120>>, <<121>>} THEN Fail
                                 ELSE LET x == IF r[1][1][1] = <<120>> THEN 1 ELSE 2
                                      IN With(r, <<k, r[1][x][2], r[1][3 - x][2]>>)
         [] k = "new" -> LET r == CDec(b, q) IN IF Failed(r) THEN Fail ELSE With(r, <<k, r[1]>>)
         [] k = "list" -> IF Failed(arr) THEN Fail
                          ELSE LET r == CSeq(b, arr[2], arr[1]) IN IF Failed(r) THEN Fail ELSE With(r, <<k, r[1]>>)
         [] k = "dict" -> IF Failed(map) THEN Fail
                          ELSE LET r == CDict(b, map[2], map[1]) IN IF Failed(r) THEN Fail ELSE With(r, <<k, r[1]>>)
         [] k = "res" -> IF Failed(map) THEN Fail ELSE IF map[1] # 1 THEN Fail
                         ELSE LET r == CDict(b, map[2], 1)
                              IN IF Failed(r) THEN Fail
                                 ELSE IF r[1][1][1] = <<79, 107>> THEN With(r, <<"ok", r[1][1][2]>>)
                                 ELSE IF r[1][1][1] = <<69, 114, 114>> THEN With(r, <<"err", r[1][1][2]>>)
                                 ELSE Fail
         [] k = "ou" -> IF IsNull(b, q) THEN <<<<k, 0>>, q + 1>> ELSE Fail
         [] k = "oo" -> IF IsNull(b, q) THEN <<<<k>>, q + 1>>
                        ELSE LET r == CDec(b, q) IN IF Failed(r) THEN Fail ELSE With(r, <<k, <<"s", r[1]>>>>)
         [] OTHER -> Fail
CDec(b, p) ==
    LET h == CHead(b, p)
        unit == CRaw(b, p, 3)
        key == CRaw(b, h[4], 3)
        i == key[1][1] - 65
    IN IF Failed(h) THEN Fail
       ELSE IF h[1] = 3 THEN (IF Failed(unit) THEN Fail ELSE IF unit[1] = NameOf("leaf") THEN With(unit, <<"leaf">>) ELSE Fail)
       ELSE IF h[1] # 5 \/ h[3] # <<1>> THEN Fail
       ELSE IF Failed(key) THEN Fail
       ELSE IF Len(key[1]) # 1 THEN Fail
       ELSE IF key[1][1] < 65 \/ key[1][1] >= 65 + Len(Kinds) THEN Fail
       ELSE CBody(b, key[2], Kinds[key[1][1] - 64])

CEncHead(major, m) ==
    LET w == CASE Len(m) <= 8 -> 1 [] Len(m) <= 16 -> 2 [] Len(m) <= 32 -> 4 [] OTHER -> 8
        info == CASE w = 1 -> 24 [] w = 2 -> 25 [] w = 4 -> 26 [] OTHER -> 27
        all == Pad(m, 8 * w)
    IN IF Len(m) <= 5 /\ Nat0(m) < 24 THEN <<32 * major + Nat0(m)>>
       ELSE <<32 * major + info>> \o [j \in 1..w |-> Nat0(SubSeq(all, 8 * (w - j) + 1, 8 * (w - j) + 8))]
CEncRaw(major, s) == CEncHead(major, Bits(Len(s))) \o s
CEncInt(s, m) ==
    IF Len(m) <= 64 THEN CEncHead(IF Defect = "sign_lost" THEN 0 ELSE s, m)
    ELSE LET n == (Len(m) + 7) \div 8
             all == Pad(m, 8 * n)
         IN CEncHead(6, <<s, 1>>) \o CEncRaw(2, [j \in 1..n |-> Nat0(SubSeq(all, 8 * (n - j) + 1, 8 * (n - j) + 8))])
RECURSIVE CEnc(_), CEncAll(_)
CEncAll(s) == IF Len(s) = 0 THEN <<>> ELSE CEnc(Head(s)) \o CEncAll(Tail(s))
CEnc(v) ==
    LET k == KindOf(v)
        body == CASE k = "unit" -> <<246>>
                  [] k = "bool" -> <<244 + v[2]>>
                  [] k \in Unsigned \cup Signed -> CEncInt(v[2], v[3])
                  [] k = "f32" -> <<250>> \o Narrow(v[2])
                  [] k = "f64" -> <<251>> \o v[2]
                  [] k \in {"char", "text"} -> CEncRaw(3, v[2])
                  [] k = "blob" -> CEncRaw(2, v[2])
                  [] k = "opt" -> IF Len(v) = 1 THEN <<246>> ELSE CEnc(v[2])
                  [] k = "pair" -> <<130>> \o CEnc(v[2]) \o CEnc(v[3])
                  [] k = "rec" -> IF Defect = "swapped" THEN <<162, 97, 121>> \o CEnc(v[2]) \o <<97, 120>> \o CEnc(v[3])
                                  ELSE <<162, 97, 120>> \o CEnc(v[2]) \o <<97, 121>> \o CEnc(v[3])
                  [] k = "new" -> CEnc(v[2])
                  [] k = "list" -> CEncHead(4, Bits(Len(v[2]))) \o CEncAll(v[2])
                  [] k = "dict" -> CEncHead(5, Bits(Len(v[2]))) \o Flat([j \in 1..Len(v[2]) |-> CEncRaw(3, v[2][j][1]) \o CEnc(v[2][j][2])])
                  [] k = "res" -> <<161>> \o CEncRaw(3, IF v[1] = "ok" THEN <<79, 107>> ELSE <<69, 114, 114>>) \o CEnc(v[2])
                  [] k = "ou" -> <<246>>
                  [] k = "oo" -> IF Len(v) = 1 THEN <<246>> ELSE IF Len(v[2]) = 1 THEN <<246>> ELSE CEnc(v[2][2])
    IN IF k = "leaf" THEN CEncRaw(3, NameOf(k)) ELSE <<161>> \o CEncRaw(3, NameOf(k)) \o body

Encode(f, v) == IF f = "postcard" THEN PEnc(v) ELSE CEnc(v)
Decode(f, b) == IF f = "postcard" THEN PDec(b, 1) ELSE CDec(b, 1)
(* What a format can tell apart: CBOR has a single null, so that an option  *)
(* of something that may itself be null loses whether it was there.         *)
RECURSIVE AsKept(_, _)
AsKept(f, v) ==
    IF f = "postcard" THEN v
    ELSE LET k == KindOf(v)
         IN CASE k = "ou" -> <<"ou", 0>>
              [] k = "oo" -> IF Len(v) = 1 THEN v ELSE IF Len(v[2]) = 1 THEN <<"oo">> ELSE <<"oo", <<"s", AsKept(f, v[2][2])>>>>
              [] k = "opt" -> IF Len(v) = 1 THEN v ELSE <<k, AsKept(f, v[2])>>
              [] k \in {"pair", "rec"} -> <<k, AsKept(f, v[2]), AsKept(f, v[3])>>
              [] k \in {"new", "res"} -> <<v[1], AsKept(f, v[2])>>
              [] k = "list" -> <<k, [j \in 1..Len(v[2]) |-> AsKept(f, v[2][j])]>>
              [] k = "dict" -> <<k, [j \in 1..Len(v[2]) |-> <<v[2][j][1], AsKept(f, v[2][j][2])>>]>>
              [] OTHER -> v
=============================================================================

---------------------------- MODULE CodecValues -----------------------------
(* Values on which the formats are tried: the boundaries of every kind of  *)
(* integer, texts, and what can be put together from them.                  *)
EXTENDS Wire
I(k, s, n) == <<k, s, Bits(n)>>
Ones(n) == [j \in 1..n |-> 1]
Ints == {I(k, 0, n) : k \in {"u8", "u16", "u32", "u64", "u128"}, n \in {0, 1, 23, 24, 127, 128, 255}}
        \cup {I(k, 0, n) : k \in {"u16", "u32", "u64", "u128"}, n \in {256, 16383, 16384, 65535}}
        \cup {<<"u32", 0, Ones(32)>>, <<"u64", 0, Ones(64)>>, <<"u64", 0, Pad(<<>>, 32) \o <<1>>>>, <<"u128", 0, Ones(128)>>, <<"u128", 0, Pad(<<>>, 64) \o <<1>>>>}
        \cup {I(k, s, n) : k \in {"i8", "i16", "i32", "i64", "i128"}, s \in {0, 1}, n \in {0, 1, 23, 24, 63, 64, 127}}
        \cup {I(k, s, n) : k \in {"i32", "i64", "i128"}, s \in {0, 1}, n \in {128, 8191, 8192, 65536}}
        \cup {<<k, s, Ones(63)>> : k \in {"i64", "i128"}, s \in {0, 1}} \cup {<<"i128", s, Ones(127)>> : s \in {0, 1}}
Texts == {<<>>, <<97>>, <<195, 169>>, <<104, 101, 108, 108, 111, 32, 119, 111, 114, 108, 100, 44, 32, 104, 101, 108, 108, 111, 32, 116, 104, 101, 114, 101>>}
Floats == {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<63, 240, 0, 0, 0, 0, 0, 0>>, <<192, 9, 0, 0, 0, 0, 0, 0>>}
Leaves == {<<"leaf">>, <<"unit">>, <<"bool", 0>>, <<"bool", 1>>, <<"opt">>} \cup Ints
          \cup {<<"text", x>> : x \in Texts} \cup {<<"char", <<97>>>>, <<"char", <<240, 159, 166, 128>>>>}
          \cup {<<"blob", x>> : x \in {<<>>, <<0>>, <<255, 0, 246>>}}
          \cup {<<k, x>> : k \in {"f32", "f64"}, x \in Floats} \cup {<<"f64", <<63, 185, 153, 153, 153, 153, 153, 154>>>>}
Few == {<<"leaf">>, <<"unit">>, <<"opt">>, I("u8", 0, 200), I("i64", 1, 300), <<"text", <<97>>>>, <<"blob", <<0>>>>}
Over(A) == {<<"opt", a>> : a \in A} \cup {<<"new", a>> : a \in A} \cup {<<"ok", a>> : a \in A} \cup {<<"err", a>> : a \in A}
           \cup {<<k, a, b>> : k \in {"pair", "rec"}, a \in A, b \in A}
           \cup {<<"list", s>> : s \in {<<>>} \cup {<<a>> : a \in A} \cup {<<a, b>> : a \in A, b \in A}}
           \cup {<<"dict", s>> : s \in {<<>>} \cup {<<<<k, a>>>> : k \in {<<>>, <<97, 98>>}, a \in A} \cup {<<<<<<97>>, a>>, <<<<98>>, b>>>> : a \in A, b \in A}}
Nullable == {<<"ou", 0>>, <<"ou", 1>>, <<"oo">>, <<"oo", <<"n">>>>, <<"oo", <<"s", <<"leaf">>>>>>}
One == Leaves \cup Over(Few) \cup Nullable
Tiny == {<<"leaf">>, I("i32", 1, 70), <<"opt">>}
Two == Over(Over(Tiny))
=============================================================================

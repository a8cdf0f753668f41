------------------------------ MODULE GenCodec ------------------------------
(* Values, put together from parts, and the way they are to take.           *)
EXTENDS CodecValues, TLC, Json
CONSTANTS Formats, Size, Places, Start
VARIABLES f, place, stack, n, todo
Bulk == {<<"blobrun", b, k>> : b \in {0, 255}, k \in {100, 128, 4095, 4096, 4097, 20000}}
        \cup {<<"textrun", 97, k>> : k \in {100, 127, 128, 4096, 4097, 70000}}
        \cup {<<"rep", k, <<"leaf">>>> : k \in {100, 128, 300}} \cup {<<"rep", 200, I("i64", 1, 1000)>>}
        \cup {<<"deep", k, <<"leaf">>>> : k \in {25, 40}}
More == {<<"f64", x>> : x \in {<<0, 0, 0, 0, 0, 0, 0, 1>>, <<127, 240, 0, 0, 0, 0, 0, 0>>, <<255, 239, 255, 255, 255, 255, 255, 255>>,
                               <<128, 0, 0, 0, 0, 0, 0, 0>>, <<62, 112, 0, 0, 0, 0, 0, 0>>, <<56, 16, 0, 0, 0, 0, 0, 0>>}}
        \cup {<<"f32", x>> : x \in {<<127, 240, 0, 0, 0, 0, 0, 0>>, <<71, 239, 255, 255, 224, 0, 0, 0>>, <<54, 160, 0, 0, 0, 0, 0, 0>>, <<62, 112, 0, 0, 0, 0, 0, 0>>}}
        \cup {<<"i32", s, Ones(31)>> : s \in {0, 1}} \cup {<<"i8", 1, Ones(7)>>, <<"i16", 1, Ones(15)>>}
        \cup {<<"text", <<226, 130, 172, 0, 34, 92>>>>, <<"dict", <<<<<<0>>, <<"leaf">>>>, <<<<195, 169>>, <<"unit">>>>>>>>}
Pool == CASE Start = "leaves" -> Leaves \cup More [] Start = "nullable" -> Leaves \cup Nullable [] OTHER -> Leaves \cup More \cup Bulk
Init == stack = <<>> /\ n = 0 /\ todo = "put" /\ f \in Formats \X Formats /\ place \in Places
Put(v) == stack' = Append(stack, v)
Top1(v) == stack' = Append(SubSeq(stack, 1, Len(stack) - 1), v)
Top2(v) == stack' = Append(SubSeq(stack, 1, Len(stack) - 2), v)
x == stack[Len(stack)]
y == stack[Len(stack) - 1]
Choices == {"put"} \cup (IF Len(stack) > 0 THEN {"one", "over"} ELSE {}) \cup (IF Len(stack) > 1 THEN {"two", "both"} ELSE {})
Next == /\ n <= Size /\ UNCHANGED <<f, place>>
         /\ \/ todo = "" /\ todo' \in Choices /\ UNCHANGED <<stack, n>>
            \/ todo # "" /\ n' = n + 1 /\ todo' = "" /\
               CASE n = Size -> UNCHANGED stack
                 [] todo = "put" -> \E v \in Pool : Put(v)
                 [] todo \in {"one", "over"} ->
                      (Top1(<<"opt", x>>) \/ Top1(<<"new", x>>) \/ Top1(<<"ok", x>>) \/ Top1(<<"err", x>>) \/ Top1(<<"list", <<x>>>>)
                        \/ Top1(<<"dict", <<<<<<107>>, x>>>>>>) \/ Top1(<<"list", <<x, x, x>>>>) \/ (Start = "nullable" /\ Top1(<<"oo", <<"s", x>>>>)))
                 [] todo \in {"two", "both"} ->
                      (Top2(<<"pair", y, x>>) \/ Top2(<<"rec", y, x>>) \/ Top2(<<"list", <<y, x>>>>)
                        \/ Top2(<<"dict", <<<<<<>>, y>>, <<<<195, 169>>, x>>>>>>))
Spec == Init /\ [][Next]_<<f, place, stack, n, todo>>
Emit == IF n = Size + 1 THEN PrintT("STIM " \o ToJson([f |-> f, place |-> place, vs |-> stack])) ELSE TRUE
=============================================================================

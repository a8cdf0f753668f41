----------------------------- MODULE GenPipeline -----------------------------
(* Schedules for directives: when inputs, the end of the input, failures    *)
(* and results arrive, in which order, with or without the directive being  *)
(* run in between (hold).  To know which results can arrive, the generator  *)
(* works every element off as soon as it can.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS D,        \* number of directives
          N,        \* inputs of each, at most
          Shapes,   \* [s |-> number of map stages, end |-> ...]
          Extra,    \* subset of {"inerr", "fail", "badout", "badmeta", "drop"}
          MaxExtra, Holds, InOrder, L
VARIABLES h, shape, given, ended, T, P, extra
vars == <<h, shape, given, ended, T, P, extra>>
Dirs == 0..(D - 1)
Init == /\ h = <<>> /\ shape \in [Dirs -> Shapes] /\ extra = 0
        /\ given = [d \in Dirs |-> {}] /\ ended = [d \in Dirs |-> FALSE]
        /\ T = [d \in Dirs |-> IF shape[d].end = "literal" THEN <<[s |-> 1, p |-> <<0, 0>>]>> ELSE <<>>] /\ P = [d \in Dirs |-> {}]
Log(op, d) == \E hold \in Holds : h' = Append(h, op @@ [d |-> d, hold |-> hold])
(* An element or piece <<lo, hi>> has come out of stage s.                  *)
Arrive(d, s, p) ==
    IF s < shape[d].s THEN T' = [T EXCEPT ![d] = Append(@, [s |-> s + 1, p |-> p])] /\ UNCHANGED P
    ELSE IF shape[d].end # "fold" THEN UNCHANGED <<T, P>>
    ELSE LET near == {q \in P[d] : p[2] + 1 = q[1] \/ q[2] + 1 = p[1]} IN
         IF near = {} THEN P' = [P EXCEPT ![d] = @ \cup {p}] /\ UNCHANGED T
         ELSE LET q == IF \E x \in near : p[2] + 1 = x[1] THEN CHOOSE x \in near : p[2] + 1 = x[1] ELSE CHOOSE x \in near : TRUE
                  r == IF p[2] + 1 = q[1] THEN <<p[1], q[2]>> ELSE <<q[1], p[2]>>
              IN P' = [P EXCEPT ![d] = @ \ {q}] /\ T' = [T EXCEPT ![d] = Append(@, [s |-> shape[d].s + 1, p |-> r])]
Cut(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
In(d) == /\ ~ended[d] /\ shape[d].end # "literal"
         /\ \E k \in 0..(N - 1) \ given[d] :
              /\ InOrder => given[d] = 0..(k - 1)
              /\ given' = [given EXCEPT ![d] = @ \cup {k}]
              /\ Log([o |-> "in", k |-> k], d)
              /\ Arrive(d, 0, <<k, k>>)
         /\ UNCHANGED <<shape, ended, extra>>
InEnd(d) == /\ ~ended[d] /\ shape[d].end # "literal"
            /\ \E m \in 0..N : given[d] = 0..(m - 1)
            /\ ended' = [ended EXCEPT ![d] = TRUE]
            /\ Log([o |-> "inend"], d)
            /\ UNCHANGED <<shape, given, T, P, extra>>
InErr(d) == /\ "inerr" \in Extra /\ extra < MaxExtra /\ ~ended[d] /\ shape[d].end # "literal"
            /\ ended' = [ended EXCEPT ![d] = TRUE] /\ extra' = extra + 1
            /\ Log([o |-> "inerr"], d)
            /\ UNCHANGED <<shape, given, T, P>>
Res(d) == \E k \in 1..Len(T[d]) :
            /\ Log([o |-> "res", r |-> k - 1], d)
            /\ LET x == T[d][k] IN
               IF x.s > shape[d].s
                 THEN LET p == x.p
                          near == {q \in P[d] : p[2] + 1 = q[1] \/ q[2] + 1 = p[1]}
                      IN IF near = {} THEN P' = [P EXCEPT ![d] = @ \cup {p}] /\ T' = [T EXCEPT ![d] = Cut(@, k)]
                         ELSE LET q == CHOOSE y \in near : TRUE
                                  r == IF p[2] + 1 = q[1] THEN <<p[1], q[2]>> ELSE <<q[1], p[2]>>
                              IN P' = [P EXCEPT ![d] = @ \ {q}] /\ T' = [T EXCEPT ![d] = Append(Cut(@, k), [s |-> x.s, p |-> r])]
               ELSE LET c == Cut(T[d], k) IN
                    IF x.s < shape[d].s THEN T' = [T EXCEPT ![d] = Append(c, [s |-> x.s + 1, p |-> x.p])] /\ UNCHANGED P
                    ELSE IF shape[d].end # "fold" THEN T' = [T EXCEPT ![d] = c] /\ UNCHANGED P
                    ELSE LET p == x.p
                             near == {q \in P[d] : p[2] + 1 = q[1] \/ q[2] + 1 = p[1]}
                         IN IF near = {} THEN P' = [P EXCEPT ![d] = @ \cup {p}] /\ T' = [T EXCEPT ![d] = c]
                            ELSE LET q == CHOOSE y \in near : TRUE
                                     r == IF p[2] + 1 = q[1] THEN <<p[1], q[2]>> ELSE <<q[1], p[2]>>
                                 IN P' = [P EXCEPT ![d] = @ \ {q}] /\ T' = [T EXCEPT ![d] = Append(c, [s |-> x.s + 1, p |-> r])]
            /\ UNCHANGED <<shape, given, ended, extra>>
Fail(d) == \E k \in 1..Len(T[d]), o \in Extra \cap {"fail", "badout", "badmeta"} :
            /\ extra < MaxExtra /\ extra' = extra + 1
            /\ Log([o |-> o, r |-> k - 1], d)
            /\ T' = [T EXCEPT ![d] = Cut(@, k)]
            /\ UNCHANGED <<shape, given, ended, P>>
Drop(d) == /\ "drop" \in Extra /\ extra < MaxExtra /\ extra' = extra + 1
           /\ Log([o |-> "drop"], d)
           /\ ended' = [ended EXCEPT ![d] = TRUE]
           /\ UNCHANGED <<shape, given, T, P>>
Next == Len(h) < L /\ \E d \in Dirs : In(d) \/ InEnd(d) \/ InErr(d) \/ Res(d) \/ Fail(d) \/ Drop(d)
Spec == Init /\ [][Next]_vars
Enabled == \E d \in Dirs : ENABLED (In(d) \/ InEnd(d) \/ InErr(d) \/ Res(d) \/ Fail(d) \/ Drop(d))
Emit == (Len(h) < L /\ (\E d \in Dirs : T[d] # <<>> \/ (~ended[d] /\ shape[d].end # "literal"))) \/ PrintT("STIM " \o ToJson([ops |-> h, shape |-> shape]))

(* sets of shapes, for the configurations *)
Folds == {[s |-> 0, end |-> "fold"]}
Maps == {[s |-> 1, end |-> "stream"]}
Sorted == {[s |-> 1, end |-> "sorted"], [s |-> 2, end |-> "sorted"]}
Literals == {[s |-> 1, end |-> "literal"], [s |-> 2, end |-> "literal"]}
Chains == {[s |-> 1, end |-> "fold"], [s |-> 2, end |-> "fold"], [s |-> 2, end |-> "stream"], [s |-> 3, end |-> "stream"], [s |-> 2, end |-> "sorted"]}
Mixed == Folds \cup Maps \cup {[s |-> 1, end |-> "fold"], [s |-> 2, end |-> "stream"], [s |-> 1, end |-> "literal"]}
=============================================================================

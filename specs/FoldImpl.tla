------------------------------ MODULE FoldImpl ------------------------------
(* The mechanism of the fold over a stream, refining Pipeline: elements are *)
(* offered to the assembler, which stores them or hands out a pair; pairs   *)
(* become tasks; results are offered in turn, except the final one, which   *)
(* is recognised by its extent once the size of the input is known.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N,        \* at most this many inputs
          Faults,   \* may the input or a combination fail
          Defect
VARIABLES inp, ended, inerr, size,
          hand,     \* (unused except by a mistake)
          asm,      \* stored pieces
          queue,    \* pairs on their way to becoming tasks
          out,      \* tasks with the workers
          done,     \* tasks sent off so far (they are named by their range)
          results,  \* results not looked at yet (lo + 100: errors)
          errs, failure, over, value
vars == <<inp, ended, inerr, size, hand, asm, queue, out, done, results, errs, failure, over, value>>
Unknown == 99
Init == /\ inp = {} /\ ended = FALSE /\ inerr = FALSE /\ size = Unknown
        /\ hand = {} /\ asm = {} /\ queue = {} /\ out = {} /\ done = {} /\ results = {}
        /\ errs = {} /\ failure = "no" /\ over = "no" /\ value = <<>>
Below(p, q) == p[2] + 1 = q[1]
Ret(o, v) == over' = o /\ value' = v
Stay == UNCHANGED <<over, value>>
Running == over = "no" /\ failure = "no"

(* Offering a piece to the assembler: in the same step as it was obtained,  *)
(* all of this being one task that does not yield in between (with the      *)
(* mistake "split": later).                                                 *)
Offer(p) ==
    LET above == {q \in asm : Below(p, q)}
        below == {q \in asm : Below(q, p)}
        near == IF above # {} THEN above ELSE below
    IN IF near = {} THEN asm' = asm \cup {p} /\ UNCHANGED queue
       ELSE LET q == CHOOSE x \in near : TRUE
                pair == IF Below(p, q) \/ Defect = "swapped" THEN <<p, q>> ELSE <<q, p>>
            IN asm' = (IF Defect = "kept" THEN asm ELSE asm \ {q}) /\ queue' = queue \cup {pair}
Late(p) ==
    /\ Running /\ p \in hand /\ hand' = hand \ {p} /\ Offer(p)
    /\ Stay /\ UNCHANGED <<inp, ended, inerr, size, out, done, results, errs, failure>>
Read(k) ==
    /\ Running /\ ~ended /\ ~inerr /\ k \notin inp
    /\ inp' = inp \cup {k}
    /\ IF inp = {} THEN asm' = asm \cup {<<k, k>>} /\ UNCHANGED queue      \* the first one is only stored
       ELSE Offer(<<k, k>>)
    /\ size' = IF Defect = "size_early" THEN Cardinality(inp') ELSE size
    /\ Stay /\ UNCHANGED <<ended, inerr, hand, out, done, results, errs, failure>>
ReadError ==
    /\ Faults /\ Running /\ ~ended /\ ~inerr
    /\ inerr' = TRUE /\ errs' = errs \cup {"in"} /\ failure' = "in"
    /\ Stay /\ UNCHANGED <<inp, ended, size, hand, asm, queue, out, done, results>>
(* The end of the input is seen once everything read has been offered.      *)
ReadEnd ==
    /\ Running /\ ~ended /\ ~inerr /\ inp = 0..Cardinality(inp) - 1
    /\ ended' = TRUE
    /\ Stay /\ UNCHANGED <<inp, inerr, size, hand, asm, queue, out, done, results, errs, failure>>
Sized ==
    /\ Running /\ ended /\ (size = Unknown \/ Defect = "size_early")
    /\ size' = Cardinality(inp)
    /\ LET final == {p \in asm : p = <<0, size' - 1>>} IN
       IF size' = 0 THEN Ret("value", <<>>) /\ UNCHANGED asm
       ELSE IF final # {} /\ (size' = 1 \/ Defect # "final_stored") THEN Ret("value", <<0, size' - 1>>) /\ asm' = asm \ final
       ELSE Stay /\ UNCHANGED asm
    /\ Defect = "size_early" => size' # size \/ over' # "no"
    /\ UNCHANGED <<inp, ended, inerr, hand, queue, out, done, results, errs, failure>>
Lo(pr) == IF pr[1][1] < pr[2][1] THEN pr[1][1] ELSE pr[2][1]
Hi(pr) == IF pr[1][2] > pr[2][2] THEN pr[1][2] ELSE pr[2][2]
Dispatch(pr) ==
    /\ Running /\ pr \in queue /\ queue' = queue \ {pr}
    /\ out' = out \cup {<<Lo(pr), Hi(pr)>>} /\ done' = done \cup {<<Lo(pr), Hi(pr)>>}
    /\ Stay /\ UNCHANGED <<inp, ended, inerr, size, hand, asm, results, errs, failure>>
(* the workers *)
Succeed(r) ==
    /\ r \in out /\ out' = out \ {r} /\ results' = results \cup {r}
    /\ Stay /\ UNCHANGED <<inp, ended, inerr, size, hand, asm, queue, done, errs, failure>>
Fails(r) ==
    /\ Faults /\ r \in out /\ out' = out \ {r} /\ results' = results \cup {<<100 + r[1], r[2]>>}
    /\ errs' = IF over = "no" THEN errs \cup {"task"} ELSE errs
    /\ Stay /\ UNCHANGED <<inp, ended, inerr, size, hand, asm, queue, done, failure>>
Process(r) ==
    /\ Running /\ r \in results /\ Cardinality(inp) >= 2
    /\ results' = results \ {r}
    /\ IF r[1] >= 100
         THEN /\ failure' = IF Defect = "error_dropped" THEN failure ELSE "task"
              /\ Stay /\ UNCHANGED <<hand, asm, queue>>
       ELSE IF size # Unknown /\ r[2] + 1 - r[1] = size
         THEN Ret("value", r) /\ UNCHANGED <<hand, failure, asm, queue>>
       ELSE /\ Stay /\ UNCHANGED failure
            /\ IF Defect = "split" THEN hand' = hand \cup {r} /\ UNCHANGED <<asm, queue>>
               ELSE Offer(r) /\ UNCHANGED hand
    /\ UNCHANGED <<inp, ended, inerr, size, out, done, errs>>
Report ==
    /\ over = "no" /\ failure # "no" /\ Ret("error", <<>>)
    /\ UNCHANGED <<inp, ended, inerr, size, hand, asm, queue, out, done, results, errs, failure>>

Internal == Sized \/ Report \/ (\E p \in hand : Late(p)) \/ (\E x \in queue : Dispatch(x)) \/ (\E r \in results : Process(r))
Next == (\E k \in 0..N - 1 : Read(k)) \/ ReadError \/ ReadEnd \/ Internal \/ (\E r \in out : Succeed(r) \/ Fails(r))
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Internal) /\ WF_vars(\E r \in out : Succeed(r))

cfg == [fs |-> <<>>, end |-> "fold", bad |-> <<>>, tag |-> ""]
Good(S) == {r \in S : r[1] < 100}
P == INSTANCE Pipeline WITH
        tasks <- [j \in done |-> [s |-> 1, lo |-> j[1], hi |-> j[2], st |-> IF j \in out THEN "out" ELSE "done"]],
        avail <- [s \in 0..6 |-> {}],
        pieces <- asm \cup hand \cup Good(results) \cup {pr[1] : pr \in queue} \cup {pr[2] : pr \in queue} \cup IF over = "value" /\ value # <<>> THEN {value} ELSE {},
        outs <- {}, outerrs <- {}, Null <- 0
V(p) == P!Value(cfg, 0, p[1], p[2])
Ranges == {<<a, b>> \in (0..N - 1) \X (0..N - 1) : a <= b}
(* A pair leaves the pieces for a task in one step: in the order it is in.  *)
Contract ==
    [][ \/ \E k \in 0..N - 1 : P!Input(cfg, k)
        \/ P!InputEnd \/ P!InputError("in")
        \/ \E pr \in queue : P!Combine(cfg, <<Lo(pr), Hi(pr)>>, V(pr[1]), V(pr[2]))
        \/ \E j \in Ranges : P!Result(cfg, j, V(j)) \/ P!Failure(j, "task")
        \/ P!Return(cfg, IF value' = <<>> THEN <<>> ELSE V(value'))
        \/ \E x \in {"in", "task"} : P!ReturnError(cfg, x) ]_P!vars
Prompt == ENABLED Internal \/ P!Quiet(cfg)
NMinusOne == over = "value" /\ size > 0 => Cardinality(done) = size - 1
Completes == (ended ~> over # "no") 
=============================================================================

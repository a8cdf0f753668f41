------------------------------ MODULE Pipeline ------------------------------
(* What the user of a directive can rely on (C09-C13, C27): a chain of maps *)
(* over a stream, ended by a fold, by reading the stream of results, or     *)
(* applied to a single literal ("sorted": collected in index order).        *)
(*                                                                          *)
(* Input k, k in 0..n-1 in any order, carries the value <<"k">>; the map of *)
(* stage s applies the s-th of the named functions to each atom; the monoid *)
(* is concatenation.  So a value identifies exactly what was done to what.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Null
VARIABLES
    inp,       \* indices of the inputs read so far
    ended,     \* the end of the input has been read
    inerr,     \* reading the input has failed
    tasks,     \* task -> its description
    avail,     \* stage -> the elements (indices) that stage can work on
    pieces,    \* ranges <<lo, hi>> the fold can combine
    errs,      \* the failures that have reached the directive
    outs,      \* indices of the results handed to the user
    outerrs,   \* errors handed to the user
    over       \* "no", "value", "error", "end"
vars == <<inp, ended, inerr, tasks, avail, pieces, errs, outs, outerrs, over>>

(* cfg: [fs |-> functions of the map stages, end |-> "fold" | "stream" |    *)
(*       "literal" | "sorted", bad |-> inputs that cannot be serialised,    *)
(*       fails |-> inputs for which operations fail]                        *)
RECURSIVE Wrap(_, _, _)
Wrap(fs, s, a) == IF s = 0 THEN a ELSE fs[s] \o "(" \o Wrap(fs, s - 1, a) \o ")"
BadSet(cfg) == {cfg.bad[k] : k \in 1..Len(cfg.bad)}
FailSet(cfg) == IF "fails" \in DOMAIN cfg THEN {cfg.fails[k] : k \in 1..Len(cfg.fails)} ELSE {}
Mark(cfg, k) == IF k \in BadSet(cfg) THEN "!" ELSE IF k \in FailSet(cfg) THEN "?" ELSE ""
Atom(cfg, s, k) == Wrap(cfg.fs, s, cfg.tag \o ToString(k) \o Mark(cfg, k))
Value(cfg, s, lo, hi) == [x \in 1..(hi + 1 - lo) |-> Atom(cfg, s, lo + x - 1)]
Stages(cfg) == Len(cfg.fs)

Init == /\ inp = {} /\ ended = FALSE /\ inerr = FALSE /\ tasks = <<>>
        /\ avail = [s \in 0..6 |-> {}] /\ pieces = {} /\ errs = {}
        /\ outs = {} /\ outerrs = {} /\ over = "no"

(* An element comes out of stage s (0: the input).                          *)
Arrive(cfg, s, k) ==
    IF s = Stages(cfg) /\ cfg.end = "fold"
      THEN pieces' = pieces \cup {<<k, k>>} /\ UNCHANGED avail
      ELSE avail' = [avail EXCEPT ![s] = @ \cup {k}] /\ UNCHANGED pieces
Input(cfg, k) ==
    /\ over = "no" /\ ~ended /\ ~inerr /\ k \notin inp
    /\ inp' = inp \cup {k}
    /\ IF k \in BadSet(cfg) /\ Stages(cfg) > 0
         THEN errs' = errs \cup {"codec"} /\ UNCHANGED <<avail, pieces>>
         ELSE Arrive(cfg, 0, k) /\ UNCHANGED errs
    /\ UNCHANGED <<ended, inerr, tasks, outs, outerrs, over>>
InputEnd ==
    /\ over = "no" /\ ~inerr
    /\ ended' = TRUE
    /\ UNCHANGED <<inp, inerr, tasks, avail, pieces, errs, outs, outerrs, over>>
InputError(x) ==
    /\ over = "no" /\ ~ended /\ ~inerr
    /\ inerr' = TRUE /\ errs' = errs \cup {x}
    /\ UNCHANGED <<inp, ended, tasks, avail, pieces, outs, outerrs, over>>

(* A task is given to the workers: the function of one of the stages is to  *)
(* be applied to an element that has come out of the stage before, ...      *)
MapTask(cfg, j, f, v) ==
    /\ j \notin DOMAIN tasks
    /\ \E s \in 1..Stages(cfg) : \E k \in avail[s - 1] :
        /\ f = cfg.fs[s] /\ v = Value(cfg, s - 1, k, k)
        /\ avail' = [avail EXCEPT ![s - 1] = @ \ {k}]
        /\ tasks' = tasks @@ (j :> [s |-> s, lo |-> k, hi |-> k, st |-> "out"])
    /\ UNCHANGED <<inp, ended, inerr, pieces, errs, outs, outerrs, over>>
(* ... or two adjacent pieces are to be combined, in order.                 *)
Combine(cfg, j, a, b) ==
    /\ cfg.end = "fold" /\ j \notin DOMAIN tasks
    /\ \E p, q \in pieces :
        /\ p[2] + 1 = q[1]
        /\ a = Value(cfg, Stages(cfg), p[1], p[2]) /\ b = Value(cfg, Stages(cfg), q[1], q[2])
        /\ ~\E k \in BadSet(cfg) : k \in {p[1], q[1]}
        /\ pieces' = pieces \ {p, q}
        /\ tasks' = tasks @@ (j :> [s |-> Stages(cfg) + 1, lo |-> p[1], hi |-> q[2], st |-> "out"])
    /\ UNCHANGED <<inp, ended, inerr, avail, errs, outs, outerrs, over>>
(* The worker has sent the result: the right one.                           *)
Result(cfg, j, v) ==
    /\ j \in DOMAIN tasks /\ tasks[j].st = "out"
    /\ LET d == tasks[j] IN
        /\ v = Value(cfg, IF d.s > Stages(cfg) THEN Stages(cfg) ELSE d.s, d.lo, d.hi)
        /\ tasks' = [tasks EXCEPT ![j].st = "done"]
        /\ IF d.s > Stages(cfg) THEN pieces' = pieces \cup {<<d.lo, d.hi>>} /\ UNCHANGED avail
           ELSE Arrive(cfg, d.s, d.lo)
    /\ UNCHANGED <<inp, ended, inerr, errs, outs, outerrs, over>>
(* An error, or something undecodable, has been sent in its place.          *)
Failure(j, x) ==
    /\ j \in DOMAIN tasks /\ tasks[j].st = "out"
    /\ tasks' = [tasks EXCEPT ![j].st = "done"]
    /\ errs' = IF over = "no" THEN errs \cup {x} ELSE errs
    /\ UNCHANGED <<inp, ended, inerr, avail, pieces, outs, outerrs, over>>

Outstanding == {j \in DOMAIN tasks : tasks[j].st = "out"}
Size == Cardinality(inp)
(* Two neighbours that cannot be sent off as a task.                        *)
Unsendable(cfg) == \E p, q \in pieces : p[2] + 1 = q[1] /\ (p[1] \in BadSet(cfg) \/ q[1] \in BadSet(cfg))

(* ---- the end ----------------------------------------------------------- *)
Return(cfg, v) ==
    /\ over = "no" /\ over' = "value"
    /\ \/ cfg.end = "fold" /\ ended /\ Size = 0 /\ v = <<>>
       \/ cfg.end = "fold" /\ ended /\ Size > 0 /\ pieces = {<<0, Size - 1>>} /\ v = Value(cfg, Stages(cfg), 0, Size - 1)
       \/ cfg.end = "sorted" /\ ended /\ errs = {} /\ avail[Stages(cfg)] = 0..Size - 1 /\ v = Value(cfg, Stages(cfg), 0, Size - 1)
       \/ cfg.end = "literal" /\ avail[Stages(cfg)] = {0} /\ v = Value(cfg, Stages(cfg), 0, 0)
    /\ UNCHANGED <<inp, ended, inerr, tasks, avail, pieces, errs, outs, outerrs>>
ReturnError(cfg, x) ==
    /\ over = "no" /\ over' = "error" /\ cfg.end # "stream"
    /\ x \in errs \/ (x = "codec" /\ Unsendable(cfg))
    /\ UNCHANGED <<inp, ended, inerr, tasks, avail, pieces, errs, outs, outerrs>>
Out(cfg, k, v) ==
    /\ over = "no" /\ cfg.end = "stream"
    /\ k \in avail[Stages(cfg)] /\ v = Value(cfg, Stages(cfg), k, k)
    /\ avail' = [avail EXCEPT ![Stages(cfg)] = @ \ {k}]
    /\ outs' = outs \cup {k}
    /\ UNCHANGED <<inp, ended, inerr, tasks, pieces, errs, outerrs, over>>
OutError(cfg, x) ==
    /\ over = "no" /\ cfg.end = "stream"
    /\ x \in errs \ outerrs
    /\ outerrs' = outerrs \cup {x}
    /\ UNCHANGED <<inp, ended, inerr, tasks, avail, pieces, errs, outs, over>>
(* The stream of results ends: all have been handed out, or an error was.   *)
OutEnd(cfg) ==
    /\ over = "no" /\ over' = "end" /\ cfg.end = "stream"
    /\ (ended /\ outs = inp /\ errs = {}) \/ outerrs # {}
    /\ UNCHANGED <<inp, ended, inerr, tasks, avail, pieces, errs, outs, outerrs>>

(* What the user may expect when the directive has nothing left to do but   *)
(* to wait for its input and for its tasks.                                 *)
Quiet(cfg) ==
    over = "no" =>
      /\ cfg.end # "stream" =>
            /\ errs = {}                                    \* reported at once
            /\ ~((ended \/ cfg.end = "literal") /\ Outstanding = {})   \* completes
      /\ cfg.end = "stream" /\ Stages(cfg) = 1 =>
            /\ errs = outerrs                               \* reported at once, every one of them
            /\ avail[1] = {}                                \* handed out as they arrive
      /\ cfg.end = "stream" =>
            /\ errs # {} => outerrs # {}
            /\ errs = {} => \A s \in 0..Stages(cfg) : avail[s] = {}   \* worked on as they arrive
            /\ ~(ended /\ Outstanding = {} /\ errs = {})    \* ends
      (* maps do not wait for more input *)
      /\ errs = {} => \A s \in 0..6 : s < Stages(cfg) => avail[s] = {}
=============================================================================

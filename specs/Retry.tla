------------------------------- MODULE Retry -------------------------------
(* Attempts, retries and how they end (C18).  Times are in microseconds.    *)
(* A failure is [x |-> its text, k |-> "t" (transient) or "f" (fatal),      *)
(*  pol |-> retry policy, fs |-> fatal strategy].                           *)
(* A policy is [k |-> "immediate"/"after"/"exp"/"none", n, d, max].         *)
EXTENDS Naturals, Sequences
CONSTANT Slack  \* for rounding
VARIABLES mode,     \* "strategy": a function is retried under a given policy;
                    \* "error": an error that has occurred is being handled;
                    \* "op": a task is executed
          pol,      \* the policy in force
          fs,       \* the fatal strategy of the error being retried
          st,       \* "ready", "running", "done", "failed", "over"
          tries,    \* attempts made under the policy
          last,     \* the last failure
          at, t0,   \* when it occurred; when the first one occurred (0 in "strategy" mode)
          traced    \* the failure has been reported to the tracer
vars == <<mode, pol, fs, st, tries, last, at, t0, traced>>
NoPol == [k |-> "none", n |-> 0, d |-> 0, max |-> 0]
NoFail == [x |-> "", k |-> "none", pol |-> NoPol, fs |-> "none"]
(* The interval of an exponential backoff grows by half each time, and the  *)
(* delay is that interval, up to half more or less.                         *)
RECURSIVE Interval(_, _)
Interval(d, k) == IF k = 0 THEN d ELSE (Interval(d, k - 1) * 3) \div 2
RECURSIVE Least(_, _)
Least(d, k) == IF k = 0 THEN 0 ELSE Least(d, k - 1) + Interval(d, k - 1) \div 2
(* The first retry of an error that has occurred observes the initial delay *)
(* as well.                                                                 *)
Delay == CASE pol.k = "after" -> pol.d
           [] pol.k = "exp" -> IF tries = 0 THEN pol.d ELSE Interval(pol.d, tries - 1) \div 2
           [] OTHER -> 0
Retryable == last.k # "f" \/ mode = "strategy"
(* In "strategy" mode there is one attempt and then max_retries retries; an *)
(* error that has occurred starts such a series of attempts.                *)
Left == CASE pol.k \in {"immediate", "after"} -> tries <= pol.n
          [] pol.k = "exp" -> Least(pol.d, tries) <= pol.max
          [] OTHER -> FALSE
UsedUp(T) == CASE pol.k \in {"immediate", "after"} -> tries = pol.n + 1
               [] pol.k = "exp" -> tries >= 1 /\ (T - t0) + (Interval(pol.d, tries - 1) * 3) \div 2 + Slack >= pol.max
               [] OTHER -> TRUE
InitStrategy(p) == /\ mode = "strategy" /\ pol = p /\ fs = "none" /\ st = "ready" /\ tries = 0
                   /\ last = NoFail /\ at = 0 /\ t0 = 0 /\ traced = FALSE
InitError(e) == /\ mode = "error" /\ pol = (IF e.k = "t" THEN e.pol ELSE NoPol) /\ fs = e.fs /\ st = "failed"
                /\ tries = 0 /\ last = e /\ at = 0 /\ t0 = 0 /\ traced = TRUE
InitOp == /\ mode = "op" /\ pol = NoPol /\ fs = "none" /\ st = "ready" /\ tries = 0
          /\ last = NoFail /\ at = 0 /\ t0 = 0 /\ traced = FALSE
First == mode = "op" /\ pol = NoPol
Attempt(T, tracing) ==
              /\ \/ st = "ready"
                 \/ st = "failed" /\ Retryable /\ Left /\ T >= at + Delay /\ (tracing => traced)
              /\ st' = "running" /\ tries' = IF First THEN 0 ELSE tries + 1
              /\ UNCHANGED <<mode, pol, fs, last, at, t0, traced>>
Succeed == st = "running" /\ st' = "done" /\ UNCHANGED <<mode, pol, fs, tries, last, at, t0, traced>>
Fail(e, T) ==
    /\ st = "running" /\ st' = "failed" /\ last' = e /\ at' = T
    /\ t0' = IF First THEN T ELSE t0
    /\ pol' = IF ~First THEN pol ELSE IF e.k = "t" THEN e.pol ELSE NoPol
    /\ fs' = (IF First THEN e.fs ELSE fs) /\ traced' = First
    /\ UNCHANGED <<mode, tries>>
(* A failure about to be followed by another attempt is reported once.      *)
Trace(x) == /\ st = "failed" /\ Retryable /\ ~traced /\ Left /\ last.x = x /\ traced' = TRUE
            /\ UNCHANGED <<mode, pol, fs, st, tries, last, at, t0>>
Return == st = "done" /\ st' = "over" /\ UNCHANGED <<mode, pol, fs, tries, last, at, t0, traced>>
Outcome == IF mode = "strategy" THEN last
           ELSE [last EXCEPT !.k = "f", !.pol = NoPol, !.fs = IF last.k = "f" THEN last.fs ELSE fs]
ReturnError(x, k, f, T) ==
    /\ st = "failed" /\ ~(Retryable /\ ~UsedUp(T))
    /\ x = Outcome.x /\ (mode = "strategy" \/ (k = "f" /\ f = Outcome.fs))
    /\ st' = "over" /\ UNCHANGED <<mode, pol, fs, tries, last, at, t0, traced>>
(* A task that cannot be decoded fails without an attempt.                  *)
Undecodable(k, f) == /\ mode = "op" /\ st = "ready" /\ pol = NoPol /\ k = "f" /\ f = "terminate"
                     /\ st' = "over" /\ UNCHANGED <<mode, pol, fs, tries, last, at, t0, traced>>
----------------------------------------------------------------------------
CONSTANTS Policies, Horizon
VARIABLE clock
Failures == {[x |-> "e", k |-> "t", pol |-> p, fs |-> f] : p \in Policies, f \in {"terminate", "ignore"}}
            \cup {[x |-> "e", k |-> "f", pol |-> NoPol, fs |-> f] : f \in {"terminate", "ignore"}}
Init == clock = 0 /\ (InitOp \/ (\E p \in Policies : InitStrategy(p)) \/ \E e \in Failures : InitError(e))
Step == \/ (\E b \in BOOLEAN : Attempt(clock, b)) \/ Succeed \/ (\E e \in Failures : Fail([e EXCEPT !.x = IF tries = 0 THEN "first" ELSE e.x], clock))
        \/ Trace(last.x) \/ Return \/ ReturnError(Outcome.x, Outcome.k, Outcome.fs, clock)
Next == \/ Step /\ UNCHANGED clock
        \/ clock < Horizon /\ clock' = clock + 1 /\ UNCHANGED vars
Spec == Init /\ [][Next]_<<vars, clock>>
(* No attempt after a success or a fatal error, none beyond the allowance.  *)
NeverAgain == [][(st \in {"done", "over"}) => (tries' = tries /\ st' # "running")]_vars
FatalEnds == [][(st = "failed" /\ last.k = "f" /\ mode # "strategy") => (st' \in {"failed", "over"})]_vars
Bounded == pol.k \in {"immediate", "after"} => tries <= pol.n + 1
Ends == pol # NoPol /\ st = "over" /\ mode # "strategy" => tries > 0
ATiny == [k : {"immediate"}, n : {1, 2}, d : {0}, max : {0}] \cup [k : {"after"}, n : {1}, d : {1}, max : {0}]
         \cup [k : {"exp"}, n : {0}, d : {2}, max : {3}]
ASmall == [k : {"immediate"}, n : {1, 2}, d : {0}, max : {0}] \cup [k : {"after"}, n : {1}, d : {2}, max : {0}]
          \cup [k : {"exp"}, n : {0}, d : {2}, max : {5}]
=============================================================================

----------------------------- MODULE RetryImpl -----------------------------
(* How the code does it: one run of the operation, the initial delay, then  *)
(* the loop of the strategy, with fatal errors taken out of the loop.       *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Policies, Horizon, Slack, Defect
VARIABLES mode, pol, fs, st, tries, last, at, t0, traced, clock,
          pc, until, num, begun, first
C == INSTANCE Retry
cvars == <<mode, pol, fs, st, tries, last, at, t0, traced>>
own == <<pc, until, num, begun, first>>
NewFailures == C!Failures
Init == /\ C!Init /\ until = 0 /\ num = 0 /\ begun = 0 /\ first = last
        /\ pc = (CASE mode = "strategy" -> "try" [] mode = "op" -> "first" [] last.k = "t" -> "initial0" [] OTHER -> "fatal")
Run == /\ pc \in {"first", "try"} /\ clock >= until
       /\ C!Attempt(clock, TRUE) \/ (Defect # "none" /\ st \in {"ready", "failed"} /\ st' = "running" /\ tries' = (IF C!First THEN 0 ELSE tries + 1)
                                       /\ UNCHANGED <<mode, pol, fs, last, at, t0, traced>>)
       /\ pc' = pc \o "ing" /\ begun' = (IF pc = "try" /\ num = 0 /\ mode # "strategy" THEN clock ELSE begun) /\ UNCHANGED <<until, num, first, clock>>
Good == /\ pc \in {"firsting", "trying"} /\ C!Succeed /\ pc' = "good" /\ UNCHANGED <<until, num, begun, first, clock>>
Bad(e) == /\ pc \in {"firsting", "trying"}
          /\ LET f == [e EXCEPT !.x = "e" \o ToString(tries)] IN C!Fail(f, clock) /\ first' = (IF first.k = "none" THEN f ELSE first)
          /\ pc' = (CASE mode # "strategy" /\ e.k = "f" /\ (pc = "firsting" \/ Defect # "fatal_retried") -> "fatal"
                      [] pc = "firsting" -> "initial0"
                      [] OTHER -> "decide")
          /\ UNCHANGED <<until, num, begun, clock>>
Initial == /\ pc = "initial0" /\ pc' = "try"
           /\ until' = clock + (IF Defect = "no_initial_delay" \/ pol.k = "immediate" THEN 0 ELSE pol.d)
           /\ UNCHANGED <<cvars, num, begun, first, clock>>
Goes(r) == IF pol.k = "exp" THEN (clock - begun) + r <= pol.max
           ELSE num < (IF Defect = "off_by_one" THEN pol.n + 1 ELSE pol.n)
Delays == CASE pol.k = "exp" -> LET i == C!Interval(pol.d, num) IN (i \div 2)..((i * 3) \div 2)
            [] pol.k = "after" -> {pol.d}
            [] OTHER -> {0}
Again == /\ pc = "decide"
         /\ \E r \in Delays : Goes(r) /\ until' = clock + r
         /\ C!Trace(last.x) \/ (Defect # "none" /\ UNCHANGED cvars)
         /\ num' = num + 1 /\ pc' = "try" /\ UNCHANGED <<begun, first, clock>>
GiveUp == /\ pc = "decide" /\ \E r \in Delays : ~Goes(r)
          /\ st' = "over" /\ pc' = "over" /\ UNCHANGED <<mode, pol, fs, tries, last, at, t0, traced, until, num, begun, first, clock>>
Fatal == /\ pc = "fatal" /\ st' = "over" /\ pc' = "over"
         /\ UNCHANGED <<mode, pol, fs, tries, last, at, t0, traced, until, num, begun, first, clock>>
End == pc = "good" /\ C!Return /\ pc' = "over" /\ UNCHANGED <<until, num, begun, first, clock>>
Tick == clock < Horizon /\ clock' = clock + 1 /\ UNCHANGED <<cvars, own>>
Next == Run \/ Good \/ (\E e \in NewFailures : Bad(e)) \/ Initial \/ Again \/ GiveUp \/ Fatal \/ End \/ Tick
Spec == Init /\ [][Next]_<<cvars, own, clock>>
(* What the code returns in GiveUp and Fatal.                               *)
Returned == IF mode = "strategy" THEN last
            ELSE IF pc = "fatal" THEN last
            ELSE [(IF Defect = "first_error" THEN first ELSE last) EXCEPT !.k = "f", !.fs = IF Defect = "last_strategy" THEN last.fs ELSE fs]
Contract == [][ \/ \E b \in BOOLEAN : C!Attempt(clock, b) \/ C!Succeed \/ C!Return \/ C!Trace(last.x)
                \/ (\E e \in NewFailures : C!Fail([e EXCEPT !.x = "e" \o ToString(tries)], clock))
                \/ C!ReturnError(Returned.x, Returned.k, Returned.fs, clock) ]_cvars
ATiny == [k : {"immediate"}, n : {1, 2}, d : {0}, max : {0}] \cup [k : {"after"}, n : {1}, d : {1}, max : {0}]
         \cup [k : {"exp"}, n : {0}, d : {2}, max : {3}]
ASmall == [k : {"immediate"}, n : {1, 2}, d : {0}, max : {0}] \cup [k : {"after"}, n : {1}, d : {2}, max : {0}]
          \cup [k : {"exp"}, n : {0}, d : {2}, max : {5}]
=============================================================================

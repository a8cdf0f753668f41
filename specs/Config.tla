------------------------------- MODULE Config -------------------------------
(* What is built from a configuration (C30).  Settings: s(erializer),       *)
(* r(untime), n(umber of workers), u(ri of the broker), b (task bus).  Each *)
(* may be given on the command line and in the environment; "" means it is  *)
(* not.  "A" and "B" stand for brokers that can be reached.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Names == {"s", "r", "n", "u", "b"}
Good == [s |-> {"postcard", "cbor"}, r |-> {"amqp", "in-memory"}, n |-> {"0", "1", "2", "3", "5", "12", "33"}]
Number == [x \in {"0", "1", "2", "3", "5", "12", "33"} |-> CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "5" -> 5 [] x = "12" -> 12 [] x = "33" -> 33]
Default == [s |-> "postcard", r |-> "amqp", n |-> "", u |-> "", b |-> ""]
Bus(b) == IF b = "" THEN "task-ipc-routing-key" ELSE b
Workers(n) == IF n = "" THEN 3 ELSE Number[n]
Reachable(u) == u \in {"A", "B"}

VARIABLES cli, env,  \* what was given
          conf,      \* what was understood
          built,     \* who has been built
          seen,      \* what has been observed of it
          stage      \* "given", "refused", "parsed", "failed"
vars == <<cli, env, conf, built, seen, stage>>

Given(x) == IF cli[x] # "" THEN cli[x] ELSE env[x]
Value(x) == IF Given(x) # "" THEN Given(x) ELSE Default[x]
Wrong(x) == x \in DOMAIN Good /\ Given(x) # "" /\ Given(x) \notin Good[x]
Complete == ~(Value("r") = "amqp" /\ Value("u") = "")
Usable == conf.r = "in-memory" \/ Reachable(conf.u)

Refuse == /\ stage = "given" /\ stage' = "refused"
          /\ (\E x \in Names : Wrong(x)) \/ ~Complete
          /\ UNCHANGED <<cli, env, conf, built, seen>>
Parse(c) == /\ stage = "given" /\ stage' = "parsed"
            /\ \A x \in Names : ~Wrong(x) /\ c[x] = Value(x)
            /\ conf' = c /\ UNCHANGED <<cli, env, built, seen>>
Build(who, how) ==
    /\ stage \in {"parsed", "failed"} /\ who \notin built /\ (who = "worker" => conf.r = "amqp")
    /\ IF Usable THEN how = "built" /\ built' = built \cup {who} /\ UNCHANGED stage
       ELSE how = "failed" /\ stage' = "failed" /\ UNCHANGED built
    /\ UNCHANGED <<cli, env, conf, seen>>
See(x) == /\ stage = "parsed" /\ "leader" \in built /\ seen' = seen \cup {x} /\ UNCHANGED <<cli, env, conf, built, stage>>
(* With plenty of tasks, this many are executed at the same time.           *)
Running(n) == conf.r = "in-memory" /\ n = Workers(conf.n) /\ See("running")
(* The task and the parts it consists of are written in this format.        *)
Sent(at, q, f) == conf.r = "amqp" /\ at = conf.u /\ q = Bus(conf.b) /\ f = conf.s /\ See("sent")
(* The worker gets it there.                                                *)
Taken(at, q) == conf.r = "amqp" /\ at = conf.u /\ (q = Bus(conf.b) => "sent" \in seen) /\ See(IF q = Bus(conf.b) THEN "taken" ELSE "other")
Answered(ok) == ok /\ "taken" \in seen /\ See("answered")
Parts(f) == f = conf.s /\ See("parts")
Over == /\ stage = "parsed"
        /\ seen \ {"other"} = IF conf.r = "amqp" THEN {"sent", "taken", "answered", "parts"} ELSE {"running", "parts"}
        /\ UNCHANGED vars
=============================================================================

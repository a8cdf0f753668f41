----------------------------- MODULE ConfigImpl -----------------------------
(* How a configuration is arrived at: the arguments are read one after      *)
(* another, then the environment fills in what is missing, then defaults;   *)
(* a broker is required if the runtime was explicitly chosen to need one.   *)
(* Refines Config.                                                          *)
EXTENDS Config
CONSTANTS Values, Defect
VARIABLES args, partial, explicit, at, observed
ivars == <<vars, args, partial, explicit, at, observed>>
None == [x \in Names |-> ""]
Init == /\ cli \in [Names -> {""}] \cup Values /\ env \in [Names -> {""}] \cup Values
        /\ conf = None /\ built = {} /\ seen = {} /\ stage = "given"
        /\ args = {x \in Names : cli[x] # ""} /\ partial = None /\ explicit = {} /\ at = "args" /\ observed = <<>>
Keep == UNCHANGED vars
OK(x, v) == x \notin DOMAIN Good \/ v \in Good[x]
Fail == stage' = "refused" /\ at' = "stop" /\ UNCHANGED <<cli, env, conf, built, seen, args, partial, explicit, observed>>
Take(x, v, more) ==
    IF OK(x, v) \/ Defect = "lenient"
      THEN /\ partial' = [partial EXCEPT ![x] = IF OK(x, v) THEN v ELSE Default[x]] /\ explicit' = explicit \cup {x}
           /\ more /\ Keep /\ UNCHANGED <<observed>>
      ELSE Fail
Arg == /\ at = "args" /\ \E x \in args : Take(x, cli[x], args' = args \ {x} /\ UNCHANGED at)
ArgsDone == at = "args" /\ args = {} /\ at' = "env" /\ Keep /\ UNCHANGED <<args, partial, explicit, observed>>
Missing == {x \in Names : env[x] # "" /\ (x \notin explicit \/ (Defect = "env wins" /\ partial[x] # env[x]))}
Env == /\ at = "env" /\ \E x \in Missing : Take(x, env[x], UNCHANGED <<args, at>>)
EnvDone == at = "env" /\ Missing = {} /\ at' = "rules" /\ Keep /\ UNCHANGED <<args, partial, explicit, observed>>
Rules == /\ at = "rules"
         /\ IF "r" \in explicit /\ partial["r"] = "amqp" /\ "u" \notin explicit THEN Fail
            ELSE /\ conf' = [x \in Names |-> IF x \in explicit THEN partial[x] ELSE IF x = "s" /\ Defect = "other default" THEN "cbor" ELSE Default[x]]
                 /\ stage' = "parsed" /\ at' = "build"
                 /\ UNCHANGED <<cli, env, built, seen, args, partial, explicit, observed>>
Make(who) == /\ at = "build" /\ who \notin built /\ stage \in {"parsed", "failed"} /\ (who = "worker" => conf.r = "amqp")
             /\ IF conf.r = "in-memory" \/ Reachable(conf.u) \/ (conf.u = "" /\ Defect = "no uri")
                  THEN built' = built \cup {who} /\ UNCHANGED stage
                ELSE stage' = "failed" /\ UNCHANGED built
             /\ UNCHANGED <<cli, env, conf, seen, args, partial, explicit, at, observed>>
LeaderBus == Bus(conf.b)
WorkerBus == IF Defect = "worker's own bus" THEN Bus("") ELSE Bus(conf.b)
Do == /\ at = "build" /\ stage = "parsed" /\ DOMAIN observed = {}
      /\ IF conf.r = "in-memory"
           THEN /\ "leader" \in built
                /\ observed' = [running |-> IF Defect = "one worker" /\ conf.n = "" THEN 1 ELSE Workers(conf.n)]
           ELSE /\ built = {"leader", "worker"}
                /\ observed' = [q |-> LeaderBus, taken |-> LeaderBus = WorkerBus]
      /\ seen' = seen \cup {"done"} /\ UNCHANGED <<cli, env, conf, built, stage, args, partial, explicit, at>>
Next == Arg \/ ArgsDone \/ Env \/ EnvDone \/ Rules \/ Make("leader") \/ Make("worker") \/ Do
Spec == Init /\ [][Next]_ivars
(* The steps are those of the contract.                                     *)
Honest ==
    [][/\ (stage = "given" /\ stage' = "refused") => Refuse
       /\ (stage = "given" /\ stage' = "parsed") => Parse(conf')
       /\ (built' # built) => \E who \in {"leader", "worker"} : Build(who, "built")
       /\ (stage' = "failed" /\ stage # "failed") => \E who \in {"leader", "worker"} : Build(who, "failed")]_ivars
Observed ==
    DOMAIN observed # {} => IF conf.r = "in-memory" THEN observed.running = Workers(conf.n)
                         ELSE observed.q = Bus(conf.b) /\ observed.taken
----------------------------------------------------------------------------
Some == {[s |-> s, r |-> r, n |-> n, u |-> u, b |-> b] : s \in {"", "cbor", "yaml"}, r \in {"", "amqp", "in-memory", "pigeon"}, n \in {"", "2", "many"}, u \in {"", "A", "dead"}, b \in {"", "bus"}}
=============================================================================

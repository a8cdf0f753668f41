----------------------------- MODULE GenConfig ------------------------------
(* Configurations: each setting given or not, on the command line and in    *)
(* the environment.  At most MaxWrong of the values are wrong ones.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxGiven, MaxWrong, Rs
VARIABLES cli, env, wrong, n
vars == <<cli, env, wrong, n>>
Right == [s |-> {"postcard", "cbor"}, r |-> Rs, n |-> {"0", "1", "2", "5", "12", "33"}, u |-> {"A", "B"}, b |-> {"bus", "Bus"}]
Off == [s |-> {"yaml", "Cbor", "postcard "}, r |-> {"pigeon", "AMQP", "in_memory"}, n |-> {"many", "1.5", "0x1", "99999999999999999999999"}, u |-> {"dead", "nonsense"}, b |-> {}]
None == [x \in {"s", "r", "n", "u", "b"} |-> ""]
Init == cli = None /\ env = None /\ wrong = 0 /\ n = 0
Set(f, x, v) == f[x] = "" /\ f' = [f EXCEPT ![x] = v]
Next == /\ n < MaxGiven /\ n' = n + 1
        /\ \E x \in DOMAIN None : \E v \in Right[x] \cup Off[x] :
             /\ v \in Off[x] => wrong < MaxWrong
             /\ wrong' = wrong + IF v \in Off[x] THEN 1 ELSE 0
             /\ (Set(cli, x, v) /\ UNCHANGED env) \/ (Set(env, x, v) /\ UNCHANGED cli)
Spec == Init /\ [][Next]_vars
Emit == PrintT("STIM " \o ToJson([cli |-> cli, env |-> env]))
=============================================================================

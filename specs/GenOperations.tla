---------------------------- MODULE GenOperations ----------------------------
(* Programs: where operations are defined, in which form, and how they are  *)
(* called.                                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Places, Forms, Calls
VARIABLES prog, calls, phase
vars == <<prog, calls, phase>>
Init == prog = <<>> /\ calls = <<>> /\ phase = "define"
Define == /\ phase = "define" /\ Len(prog) < MaxOps
          /\ \E p \in Places, f \in Forms : prog' = Append(prog, [place |-> p, form |-> f])
          /\ UNCHANGED <<calls, phase>>
Enough == /\ phase = "define" /\ Len(prog) > 1 /\ phase' = "call" /\ UNCHANGED <<prog, calls>>
Call == /\ phase = "call" /\ Len(calls) < Calls
        /\ \E o \in 1..Len(prog), f \in 0..2 : calls' = Append(calls, [op |-> o, f |-> f])
        /\ UNCHANGED <<prog, phase>>
Next == Define \/ Enough \/ Call
Spec == Init /\ [][Next]_vars
Emit == (phase = "call" /\ Len(calls) = Calls) => PrintT("STIM " \o ToJson([prog |-> prog, calls |-> calls]))
=============================================================================

--------------------------- MODULE OperationsImpl ---------------------------
(* How operations get their executors: a counter of the macro assigns       *)
(* identifiers at expansion; the linker collects the executors of a binary  *)
(* in an order of its own; executors are looked up by identifier.  A task   *)
(* may be executed by another binary than the one that built it.            *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS MaxOps, Mods, MaxCalls, Defect
VARIABLES prog,   \* the module of each operation, in the order of expansion
          here, there, \* the slices of the binary that builds tasks and of the one that executes them
          calls   \* <<operation, operation executed>>
vars == <<prog, here, there, calls>>
N == Len(prog)
Perm == {p \in [1..N -> 1..N] : \A a, b \in 1..N : a # b => p[a] # p[b]}
(* identifiers *)
Before(o) == {p \in 1..(o - 1) : prog[p] = prog[o]}
Id(o) == CASE Defect = "per_module" -> Cardinality(Before(o))
           [] Defect = "wraps" -> (o - 1) % 2
           [] Defect = "late_id" -> (CHOOSE j \in 1..N : here[j] = o) - 1
           [] OTHER -> o - 1
Lookup(id) == CASE Defect = "by_position" -> there[id + 1]
                [] Defect = "late_id" -> there[id + 1]
                [] OTHER -> there[CHOOSE j \in 1..N : /\ Id(there[j]) = id
                                                      /\ \A x \in 1..(j - 1) : Id(there[x]) # id]
(* without the extra binary: one process, one slice *)
Init == /\ prog \in UNION {[1..n -> Mods] : n \in 1..MaxOps}
        /\ here \in Perm /\ there \in Perm
        /\ calls = <<>>
Call(o) == Len(calls) < MaxCalls /\ calls' = Append(calls, <<o, Lookup(Id(o))>>) /\ UNCHANGED <<prog, here, there>>
Next == \E o \in 1..N : Call(o)
Spec == Init /\ [][Next]_vars
Named == \A k \in 1..Len(calls) : calls[k][1] = calls[k][2]
Unique == \A a, b \in 1..N : a # b => Id(a) # Id(b)
(* In one process a position of its own slice does identify an operation.   *)
NamedAtHome == here = there => Named
=============================================================================

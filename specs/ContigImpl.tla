----------------------------- MODULE ContigImpl -----------------------------
(* The mechanism of the contiguous assembler: an ordered map from the lower *)
(* index of a value to a cell holding it.  An offer peeks at the next       *)
(* entry, takes the content of its cell if adjacent, removes the entry;     *)
(* else does the same with the previous entry; else inserts.                *)
EXTENDS Naturals, FiniteSets
CONSTANTS N, OpIds, Defect
VARIABLES map, full, op, hand, stable, bad
vars == <<map, full, op, hand, stable, bad>>
(* Values are <<lo, hi>>; `map`: the entries (values, identified with their *)
(* cells), `full`: the cells with something in them, `hand`: the values     *)
(* users hold, `stable`: for an operation the values that were stored       *)
(* before it began and have been ever since, `bad`: what went wrong.        *)
Vals == {<<a, b>> \in (1..N) \X (1..N) : a <= b}
Below(a, b) == a[2] + 1 = b[1]
Idle == [pc |-> "idle", v |-> <<0, 0>>, x |-> <<0, 0>>]
Init == /\ map = {} /\ full = {} /\ op = [k \in OpIds |-> Idle] /\ bad = {}
        /\ hand = {<<a, a>> : a \in 1..N} /\ stable = [k \in OpIds |-> {}]
Keep(S) == stable' = [k \in OpIds |-> stable[k] \cap S]
Set(k, r) == op' = [op EXCEPT ![k] = r]
Start(k, v) ==
    /\ op[k].pc = "idle" /\ v \in hand
    /\ hand' = hand \ {v} /\ stable' = [stable EXCEPT ![k] = map \cap full]
    /\ Set(k, [pc |-> IF Defect = "store_first" THEN "insert" ELSE "lookR", v |-> v, x |-> <<0, 0>>])
    /\ UNCHANGED <<map, full, bad>>
Next1(S, v) == {x \in S : x[1] >= v[1] /\ \A y \in S : y[1] >= v[1] => x[1] <= y[1]}
Prev1(S, v) == {x \in S : x[1] < v[1] /\ \A y \in S : y[1] < v[1] => x[1] >= y[1]}
Look(k) ==
    /\ op[k].pc \in {"lookR", "lookL"}
    /\ LET R == op[k].pc = "lookR"
           v == op[k].v
           c == IF R THEN Next1(map, v) ELSE Prev1(map, v)
           good == {x \in c : x \in full /\ (IF R THEN Below(v, x) ELSE Below(x, v))}
       IN Set(k, IF good # {} THEN [op[k] EXCEPT !.pc = IF R THEN "takeR" ELSE "takeL", !.x = CHOOSE x \in good : TRUE]
                 ELSE [op[k] EXCEPT !.pc = IF R THEN "lookL" ELSE "insert"])
    /\ UNCHANGED <<map, full, hand, stable, bad>>
TakeCell(k) ==
    /\ op[k].pc \in {"takeR", "takeL"}
    /\ LET R == op[k].pc = "takeR"
           x == op[k].x
       IN IF x \in full \/ Defect = "read_not_taken"
            THEN /\ full' = full \ {x} /\ Keep(full')
                 /\ Set(k, [op[k] EXCEPT !.pc = "remove"])
            ELSE /\ Set(k, [op[k] EXCEPT !.pc = IF R THEN "lookL" ELSE "insert"]) /\ UNCHANGED <<full, stable>>
    /\ UNCHANGED <<map, hand, bad>>
Remove(k) ==
    /\ op[k].pc = "remove"
    /\ map' = {y \in map : y[1] # op[k].x[1]}
    /\ LET v == op[k].v
           x == op[k].x
           m == IF Below(x, v) THEN <<x[1], v[2]>> ELSE <<v[1], x[2]>>
       IN hand' = hand \cup {m}
    /\ Set(k, Idle) /\ Keep(map')
    /\ UNCHANGED <<full, bad>>
Insert(k) ==
    /\ op[k].pc = "insert"
    /\ LET v == op[k].v IN
        /\ map' = {y \in map : y[1] # v[1]} \cup {v}
        /\ full' = full \cup {v}
        /\ bad' = IF \E x \in stable[k] : Below(x, v) \/ Below(v, x) THEN bad \cup {"missed"} ELSE bad
    /\ Set(k, Idle) /\ UNCHANGED <<hand, stable>>
(* Removing an entry by its key, then taking what its cell holds.           *)
Deq(k, key) ==
    /\ op[k].pc = "idle" /\ \E x \in map : x[1] = key
    /\ LET x == CHOOSE x \in map : x[1] = key IN
        /\ map' = map \ {x} /\ Set(k, [pc |-> "deq", v |-> <<0, 0>>, x |-> x])
        /\ stable' = [j \in OpIds |-> stable[j] \ {x}]
    /\ UNCHANGED <<full, hand, bad>>
DeqTake(k) ==
    /\ op[k].pc = "deq"
    /\ full' = full \ {op[k].x}
    /\ hand' = IF op[k].x \in full THEN hand \cup {op[k].x} ELSE hand
    /\ Set(k, Idle) /\ UNCHANGED <<map, stable, bad>>
Next == \E k \in OpIds : (\E v \in hand : Start(k, v)) \/ Look(k) \/ TakeCell(k) \/ Remove(k) \/ Insert(k)
                         \/ (\E key \in 1..N : Deq(k, key)) \/ DeqTake(k)
Spec == Init /\ [][Next]_vars
(* Every index is in exactly one place.                                     *)
Places(i) == Cardinality({v \in full : i \in v[1]..v[2]}) + Cardinality({v \in hand : i \in v[1]..v[2]})
             + Cardinality({k \in OpIds : op[k].pc \notin {"idle", "deq"} /\ i \in op[k].v[1]..op[k].v[2]})
             + Cardinality({k \in OpIds : op[k].pc = "remove" /\ i \in op[k].x[1]..op[k].x[2]})
Conserved == \A i \in 1..N : Places(i) = 1
(* Cells with content are reachable, but for those being dequeued.          *)
Reachable == \A v \in full : v \in map \/ \E k \in OpIds : op[k].pc = "deq" /\ op[k].x = v
NothingMissed == bad = {}
=============================================================================

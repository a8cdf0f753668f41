-------------------------------- MODULE Bulk --------------------------------
(* Directives over many elements, of whose runs only the outcome is looked  *)
(* at (C09, C10, C12, C27).  Element k carries the span <<k, k>>; a map     *)
(* marks a span; combining two spans joins them, if the second one follows  *)
(* the first.  So the outcome for n elements is known in closed form, which *)
(* is checked here against the mechanism for all small n, in any order.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, Kinds, Defect
VARIABLES kind, n, left, todo, pieces, calls, maps, outs, over
vars == <<kind, n, left, todo, pieces, calls, maps, outs, over>>
(* What the user must see: [calls, maps: how often the operations ran,      *)
(* value: the span of the fold, outs: the results of a map, in their place] *)
Expected(k, m) == [calls |-> IF k \in {"fold", "mapfold"} /\ m > 0 THEN m - 1 ELSE 0,
                   maps |-> IF k = "fold" THEN 0 ELSE m,
                   value |-> IF k \in {"map", "sorted"} \/ m = 0 THEN <<>> ELSE <<0, m - 1>>,
                   outs |-> IF k \in {"map", "sorted"} THEN m ELSE 0]
(* The index as it is recorded.                                             *)
Idx(k) == IF Defect = "narrow" THEN k % 4 ELSE k
Folds == kind \in {"fold", "mapfold"}
Init == /\ kind \in Kinds /\ n \in 0..N /\ left = 0..(n - 1) /\ todo = {} /\ pieces = {}
        /\ calls = 0 /\ maps = 0 /\ outs = {} /\ over = <<>>
Arrive(k) == IF Folds THEN pieces' = pieces \cup {<<Idx(k), Idx(k)>>} /\ UNCHANGED outs
             ELSE outs' = outs \cup {Idx(k)} /\ UNCHANGED pieces
In == \E k \in left : /\ left' = left \ {k}
                      /\ IF kind = "fold" THEN Arrive(k) /\ UNCHANGED todo
                         ELSE todo' = todo \cup {k} /\ UNCHANGED <<pieces, outs>>
                      /\ UNCHANGED <<kind, n, calls, maps, over>>
Map == \E k \in todo : /\ maps' = maps + 1
                       /\ todo' = IF Defect = "twice" /\ maps < 1 THEN todo ELSE todo \ {k}
                       /\ Arrive(k) /\ UNCHANGED <<kind, n, left, calls, over>>
Combine == \E p, q \in pieces : /\ IF Defect = "anyorder" THEN p # q ELSE p[2] + 1 = q[1]
                                /\ pieces' = (pieces \ {p, q}) \cup {<<p[1], q[2]>>}
                                /\ calls' = calls + 1
                                /\ UNCHANGED <<kind, n, left, todo, maps, outs, over>>
End == /\ over = <<>> /\ left = {} /\ todo = {}
       /\ Folds => Cardinality(pieces) <= 1
       /\ over' = [calls |-> calls, maps |-> maps, outs |-> Cardinality(outs),
                   value |-> IF pieces = {} THEN <<>> ELSE CHOOSE p \in pieces : TRUE]
       /\ UNCHANGED <<kind, n, left, todo, pieces, calls, maps, outs>>
Next == In \/ Map \/ Combine \/ End
Spec == Init /\ [][Next]_vars
Closed == over = <<>> \/ over = Expected(kind, n)
(* Nothing gets stuck before the end.                                       *)
Goes == over # <<>> \/ ENABLED Next
=============================================================================

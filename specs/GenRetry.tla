------------------------------ MODULE GenRetry ------------------------------
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Modes, Pols, L, Rest, Payloads
VARIABLES h, mode, start, rest, payload
vars == <<h, mode, start, rest, payload>>
NoPol == [k |-> "none", n |-> 0, d |-> 0, max |-> 0]
FS == {"terminate", "ignore"}
T == {[k |-> "t", pol |-> p, fs |-> f] : p \in Pols, f \in FS}
F == {[k |-> "f", pol |-> NoPol, fs |-> f] : f \in FS}
Other == {[k |-> x, pol |-> NoPol, fs |-> "terminate"] : x \in {"ok"} \cup (IF mode = "op" THEN {"panic", "badout"} ELSE {})}
Init == /\ h = <<>> /\ mode \in Modes /\ rest \in Rest
        /\ payload \in (IF mode = "op" THEN Payloads ELSE {"good"})
        /\ start \in (CASE mode = "strategy" -> {[k |-> "t", pol |-> p, fs |-> "terminate"] : p \in Pols}
                        [] mode = "error" -> T \cup F
                        [] OTHER -> {[k |-> "none", pol |-> NoPol, fs |-> "none"]})
Next == /\ Len(h) < L /\ (IF h = <<>> THEN TRUE ELSE h[Len(h)].k = "t")
        /\ \E o \in T \cup F \cup Other : h' = Append(h, o)
        /\ UNCHANGED <<mode, start, rest, payload>>
Spec == Init /\ [][Next]_vars
Emit == PrintT("STIM " \o ToJson([mode |-> mode, start |-> start, outs |-> h, rest |-> rest, payload |-> payload]))
Us(ks, n, d, m) == {[k |-> ks, n |-> n, d |-> d, max |-> m]}
AVirtual == Us("immediate", 1, 0, 0) \cup Us("immediate", 3, 0, 0) \cup Us("after", 1, 5000, 0) \cup Us("after", 2, 20000, 0)
AMore == AVirtual \cup Us("immediate", 2, 0, 0) \cup Us("immediate", 7, 0, 0) \cup Us("after", 3, 100000000, 0) \cup Us("after", 5, 1000, 0)
AReal == Us("exp", 0, 1000, 4000) \cup Us("exp", 0, 2000, 25000) \cup Us("immediate", 1, 0, 0)
=============================================================================

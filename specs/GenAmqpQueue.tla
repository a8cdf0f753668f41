---------------------------- MODULE GenAmqpQueue ----------------------------
(* Histories of a queue on a broker.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Modes, Conns, Consumers, Messages, L, Extra, MaxExtra
VARIABLES h, mode, n, open, cutc, extra, gone
vars == <<h, mode, n, open, cutc, extra, gone>>
Init == /\ h = <<>> /\ mode \in Modes /\ n = 0 /\ open = <<>> /\ cutc = {} /\ extra = 0 /\ gone = FALSE
Do(o) == h' = Append(h, o)
Sub == /\ Len(open) < Consumers
       /\ \E k \in (0..(Conns - 1)) \ cutc : Do([o |-> "sub", c |-> Len(open), conn |-> k]) /\ open' = Append(open, k)
       /\ UNCHANGED <<mode, n, cutc, extra, gone>>
Pub == /\ n < Messages /\ n' = n + 1
       /\ \E k \in (0..(Conns - 1)) \ cutc, p \in {0, 5000} : Do([o |-> "pub", conn |-> k, v |-> n, pad |-> p])
       /\ UNCHANGED <<mode, open, cutc, extra, gone>>
Settle == /\ open # <<>>
          /\ \E c \in 0..(Len(open) - 1), o \in {"ack", "nack"} : Do([o |-> o, c |-> c])
          /\ UNCHANGED <<mode, n, open, cutc, extra, gone>>
More == /\ extra < MaxExtra /\ extra' = extra + 1 /\ open # <<>>
        /\ \/ \E k \in (0..(Conns - 1)) \ cutc, o \in Extra \cap {"cut", "expel", "close"} :
                cutc' = cutc \cup {k} /\ Do([o |-> o, conn |-> k]) /\ UNCHANGED gone
           \/ "bad" \in Extra /\ Do([o |-> "bad"]) /\ UNCHANGED <<cutc, gone>>
           \/ "drop" \in Extra /\ (\E c \in 0..(Len(open) - 1) : Do([o |-> "drop", c |-> c])) /\ UNCHANGED <<cutc, gone>>
           \/ "delete" \in Extra /\ (\E k \in (0..(Conns - 1)) \ cutc : Do([o |-> "delete", conn |-> k])) /\ gone' = TRUE /\ UNCHANGED cutc
        /\ UNCHANGED <<mode, n, open>>
Next == Len(h) < L /\ ~gone /\ Cardinality(cutc) < Conns /\ (Sub \/ Pub \/ Settle \/ More)
Spec == Init /\ [][Next]_vars
Emit == (Len(h) = L \/ gone) => PrintT("STIM " \o ToJson([mode |-> mode, conns |-> Conns, ops |-> h]))
=============================================================================

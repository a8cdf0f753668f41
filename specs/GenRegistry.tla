----------------------------- MODULE GenRegistry -----------------------------
(* Histories of operations on names: declare, delete, get, issue, use,      *)
(* release (in several ways), publish, subscribe, poll, drop.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Kinds, Conns, MaxH, MaxC, MaxCh, MaxM, Ways, Emitted, L
VARIABLES h, nh, nc, open, nch, live, np, ni
vars == <<h, nh, nc, open, nch, live, np, ni>>
Init == h = <<>> /\ nh = 0 /\ nc = 0 /\ open = {} /\ nch = 0 /\ live = {} /\ np = 0 /\ ni = 0
Do(op) == Len(h) < L /\ h' = Append(h, op)
Used == {h[k].n : k \in {j \in 1..Len(h) : "n" \in DOMAIN h[j]}}
Fresh(n) == n \in Used \/ \A m \in Names : m < n => m \in Used
Next ==
    \/ \E n \in Names, k \in Kinds, x \in Conns :
         /\ Fresh(n) /\ nh < MaxH /\ nh' = nh + 1
         /\ Do([o |-> "declare", h |-> nh + 1, n |-> n, k |-> k, x |-> x])
         /\ UNCHANGED <<nc, open, nch, live, np, ni>>
    \/ \E n \in Names, x \in Conns :
         /\ n \in Used /\ Do([o |-> "delete", n |-> n, x |-> x])
         /\ UNCHANGED <<nh, nc, open, nch, live, np, ni>>
    \/ \E n \in Names, k \in Kinds \ {"ephemeral"}, x \in Conns :
         /\ Fresh(n) /\ nch < MaxCh /\ nch' = nch + 1 /\ live' = live \cup {nch + 1}
         /\ Do([o |-> "get", ch |-> nch + 1, n |-> n, k |-> k, x |-> x])
         /\ UNCHANGED <<nh, nc, open, np, ni>>
    \/ \E k \in Kinds \ {"ephemeral"}, x \in Conns :
         /\ nch < MaxCh /\ nch' = nch + 1 /\ live' = live \cup {nch + 1} /\ ni' = ni + 1
         /\ Do([o |-> "issue", ch |-> nch + 1, k |-> k, x |-> x])
         /\ UNCHANGED <<nh, nc, open, np>>
    \/ \E ch \in live :
         \/ /\ nh < MaxH /\ nh' = nh + 1 /\ Do([o |-> "sender", h |-> nh + 1, ch |-> ch])
            /\ UNCHANGED <<nc, open, nch, live, np, ni>>
         \/ /\ nc < MaxC /\ nc' = nc + 1 /\ open' = open \cup {nc + 1}
            /\ Do([o |-> "receiver", c |-> nc + 1, ch |-> ch])
            /\ UNCHANGED <<nh, nch, live, np, ni>>
         \/ \E w \in Ways : Do([o |-> "release", ch |-> ch, way |-> w]) /\ UNCHANGED <<nh, nc, open, nch, live, np, ni>>
    \/ \E a \in 1..nh :
         \/ np < MaxM /\ np' = np + 1 /\ Do([o |-> "pub", h |-> a, m |-> np + 1]) /\ UNCHANGED <<nh, nc, open, nch, live, ni>>
         \/ \E s \in {"s", "r"} : /\ nc < MaxC /\ nc' = nc + 1 /\ open' = open \cup {nc + 1}
                                  /\ Do([o |-> "sub", c |-> nc + 1, h |-> a, s |-> s])
                                  /\ UNCHANGED <<nh, nch, live, np, ni>>
    \/ \E c \in open :
         \/ Do([o |-> "poll", c |-> c]) /\ UNCHANGED <<nh, nc, open, nch, live, np, ni>>
         \/ Do([o |-> "drop", c |-> c]) /\ open' = open \ {c} /\ UNCHANGED <<nh, nc, nch, live, np, ni>>
Spec == Init /\ [][Next]_vars
Emit == Len(h) < L \/ RandomElement(1..Emitted) # 1 \/ PrintT("STIM " \o ToJson(h))
=============================================================================

------------------------------- MODULE Contig -------------------------------
(* Contract of the contiguous assembler (C08).                              *)
(*                                                                          *)
(* A value covers the indices lo..hi.  Values of different offers never     *)
(* overlap.  Operations have a start and an end; each has its effect        *)
(* (taking a stored value, or storing its own) at one instant in between.   *)
EXTENDS Naturals, FiniteSets
CONSTANTS Values, OpIds
VARIABLES
    stored,     \* the values in the assembler
    ops,        \* operation in progress -> [kind, v, key, got, put, noL, noR]
    out         \* values taken out, with multiplicity (value -> number)
vars == <<stored, ops, out>>

Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Nothing == [lo |-> 0, hi |-> 0, id |-> 0]
Below(a, b) == a.hi + 1 = b.lo
Adjacent(a, b) == Below(a, b) \/ Below(b, a)

NoL(o, S) == ~\E x \in S : IF o.kind = "dequeue" THEN x.lo = o.key ELSE Below(x, o.v)
NoR(o, S) == ~\E x \in S : o.kind # "dequeue" /\ Below(o.v, x)
(* What every operation in progress could have seen so far.                 *)
Watch(f, S) == [k \in DOMAIN f |-> [f[k] EXCEPT !.noL = @ \/ NoL(f[k], S), !.noR = @ \/ NoR(f[k], S)]]

Init == \E S \in SUBSET Values : stored = S /\ ops = Empty /\ out = Empty
InitWith(S) == stored = S /\ ops = Empty /\ out = Empty

(* kind: "offer", "find" (look only), "queue" (store only), "dequeue"       *)
Call(k, kind, v, key) ==
    /\ k \notin DOMAIN ops
    /\ ops' = Watch(Put(ops, k, [kind |-> kind, v |-> v, key |-> key, got |-> Nothing, put |-> FALSE, noL |-> FALSE, noR |-> FALSE]), stored)
    /\ UNCHANGED <<stored, out>>
Take(k, x) ==
    /\ k \in DOMAIN ops /\ x \in stored
    /\ LET o == ops[k] IN
        /\ o.got = Nothing /\ ~o.put
        /\ \/ o.kind \in {"offer", "find"} /\ Adjacent(o.v, x)
           \/ o.kind = "dequeue" /\ x.lo = o.key
    /\ stored' = stored \ {x}
    /\ ops' = Watch(Put(ops, k, [ops[k] EXCEPT !.got = x]), stored')
    /\ UNCHANGED out
Store(k) ==
    /\ k \in DOMAIN ops
    /\ LET o == ops[k] IN
        /\ o.got = Nothing /\ ~o.put
        /\ \/ o.kind = "offer" /\ o.noL /\ o.noR
           \/ o.kind = "queue"
        /\ stored' = stored \cup {o.v}
    /\ ops' = Watch(Put(ops, k, [ops[k] EXCEPT !.put = TRUE]), stored')
    /\ UNCHANGED out
(* r: the value taken (Nothing if none), lower: it was reported as the      *)
(* lower one of the pair.                                                   *)
Return(k, r, lower) ==
    /\ k \in DOMAIN ops
    /\ LET o == ops[k] IN
        /\ r = o.got
        /\ r # Nothing /\ o.kind \in {"offer", "find"} => (lower <=> Below(r, o.v))
        /\ r = Nothing => \/ o.put
                          \/ o.kind \in {"find", "dequeue"} /\ o.noL /\ o.noR
    /\ ops' = Drop(ops, k)
    /\ out' = IF r = Nothing THEN out ELSE Put(out, r, IF r \in DOMAIN out THEN out[r] + 1 ELSE 1)
    /\ UNCHANGED stored

Held == {ops[k].v : k \in DOMAIN ops} \cup {ops[k].got : k \in DOMAIN ops}
Next ==
    \/ \E k \in OpIds, v \in Values :
         \/ v \notin stored \cup Held \cup DOMAIN out /\ \E kind \in {"offer", "find", "queue"} : Call(k, kind, v, 0)
         \/ Call(k, "dequeue", Nothing, v.lo)
         \/ Take(k, v)
         \/ \E lower \in BOOLEAN : Return(k, v, lower)
    \/ \E k \in OpIds : Store(k) \/ Return(k, Nothing, FALSE)
Spec == Init /\ [][Next]_vars
SmallValues == {[lo |-> a, hi |-> a, id |-> a] : a \in 1..3} \cup {[lo |-> 1, hi |-> 2, id |-> 9]}
-----------------------------------------------------------------------------
NoDuplicates ==
    /\ \A j, k \in DOMAIN ops : j # k /\ ops[j].got # Nothing => ops[j].got # ops[k].got
    /\ \A k \in DOMAIN ops : ops[k].got \notin stored
(* In this model what was taken out is not offered again.                   *)
HandedOutOnce == \A v \in DOMAIN out : out[v] = 1 /\ v \notin stored
NothingLost == [][\A v \in stored \ stored' : \E k \in DOMAIN ops' : ops'[k].got = v]_vars
(* Alone, an offer pairs whenever it can.                                   *)
PairsWhenPossible ==
    [][\A k \in DOMAIN ops : ops[k].kind = "offer" /\ DOMAIN ops = {k} /\ k \in DOMAIN ops' /\ ops'[k].put /\ ~ops[k].put
         => \A x \in stored : ops[k].noL /\ ops[k].noR]_vars
=============================================================================

----------------------------- MODULE AmqpQueue -----------------------------
(* A queue of a broker as its users see it (C24, C26, C28).                 *)
(* mode "one": every message goes to one consumer, again if that one's      *)
(* connection is lost before it has settled it.  mode "all": every message  *)
(* goes to every consumer that subscribed before it was published.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES mode, qos,
          sent,   \* messages published
          pend,   \* "one": messages for anybody
          old,    \* "all": consumer -> messages published before it came, which it may get
          due,    \* "all": consumer -> messages it has yet to get, in order
          conn,   \* consumer -> connection, of all consumers there have been
          live,   \* consumers that are to get messages
          late,   \* <<consumer, message>>: may have been on its way when the connection closed
          held,   \* <<consumer, message>>: taken and not settled
          ending, \* consumers whose stream has to end
          ended
vars == <<mode, qos, sent, pend, old, due, conn, live, late, held, ending, ended>>
Start(m, q) == /\ mode = m /\ qos = q /\ sent = {} /\ pend = {} /\ old = <<>> /\ due = <<>> /\ conn = <<>> /\ live = {}
               /\ late = {} /\ held = {} /\ ending = {} /\ ended = {}
Sub(c, k) == /\ c \notin DOMAIN conn
             /\ conn' = (c :> k) @@ conn /\ live' = live \cup {c} /\ due' = (c :> <<>>) @@ due
             /\ old' = (c :> IF mode = "all" THEN sent ELSE {}) @@ old
             /\ UNCHANGED <<mode, qos, sent, pend, late, held, ending, ended>>
Pub(v) == /\ v \notin sent /\ sent' = sent \cup {v}
          /\ IF mode = "one" THEN pend' = pend \cup {v} /\ UNCHANGED due
             ELSE /\ due' = [c \in DOMAIN due |-> IF c \in live THEN Append(due[c], v) ELSE due[c]]
                  /\ UNCHANGED pend
          /\ UNCHANGED <<mode, qos, old, conn, live, late, held, ending, ended>>
Holds(c) == Cardinality({x \in held : x[1] = c})
Take(c, v) == /\ c \in live /\ Holds(c) < qos
              /\ IF mode = "one" THEN v \in pend /\ pend' = pend \ {v} /\ UNCHANGED <<old, due>>
                 ELSE IF v \in old[c] THEN old' = [old EXCEPT ![c] = @ \ {v}] /\ UNCHANGED <<pend, due>>
                 ELSE UNCHANGED old /\ due[c] # <<>> /\ v = Head(due[c]) /\ due' = [due EXCEPT ![c] = Tail(@)] /\ UNCHANGED pend
              /\ held' = held \cup {<<c, v>>}
              /\ UNCHANGED <<mode, qos, sent, conn, live, late, ending, ended>>
TakeLate(c, v) == /\ <<c, v>> \in late /\ late' = late \ {<<c, v>>}
                  /\ UNCHANGED <<mode, qos, sent, pend, old, due, conn, live, held, ending, ended>>
Settle(c, v) == /\ <<c, v>> \in held /\ held' = held \ {<<c, v>>}
                /\ UNCHANGED <<mode, qos, sent, pend, old, due, conn, live, late, ending, ended>>
Drop(c) == /\ c \in live /\ live' = live \ {c}
           /\ UNCHANGED <<mode, qos, sent, pend, old, due, conn, late, held, ending, ended>>
(* The connection is closed, by whomever.                                   *)
Cut(k) == LET of == {c \in DOMAIN conn : conn[c] = k} IN
          /\ live' = live \ of /\ ending' = ending \cup (live \cap of)
          /\ held' = {x \in held : x[1] \notin of}
          /\ late' = late \cup UNION {{<<c, v>> : v \in pend \cup {due[c][j] : j \in DOMAIN due[c]}} : c \in live \cap of}
          /\ pend' = IF mode = "one" THEN pend \cup {x[2] : x \in {y \in held : y[1] \in of}} ELSE pend
          /\ UNCHANGED <<mode, qos, sent, old, due, conn, ended>>
Delete == /\ pend' = {} /\ ending' = ending \cup live /\ live' = {}
          /\ UNCHANGED <<mode, qos, sent, old, due, conn, late, held, ended>>
End(c) == /\ c \in ending /\ ending' = ending \ {c} /\ ended' = ended \cup {c}
          /\ UNCHANGED <<mode, qos, sent, pend, old, due, conn, live, late, held>>
(* Nothing more happens unless somebody does something.                     *)
Served == \A c \in live : Holds(c) >= qos \/ (pend = {} /\ due[c] = <<>>)
AtRest == Served /\ ending = {}
----------------------------------------------------------------------------
CONSTANTS M, C, K, Modes, Qos
Init == \E m \in Modes, q \in Qos : Start(m, q)
Next == \/ \E c \in C : Drop(c) \/ End(c) \/ (\E k \in K : Sub(c, k)) \/ (\E v \in M : Take(c, v) \/ TakeLate(c, v) \/ Settle(c, v))
        \/ (\E v \in M : Pub(v)) \/ (\E k \in K : Cut(k)) \/ Delete
Live == \A c \in C : WF_vars(End(c)) /\ WF_vars(\E v \in M : Take(c, v))
Spec == Init /\ [][Next]_vars /\ Live
(* Held by one consumer at a time.                                          *)
OneHolder == mode = "one" => \A x, y \in held : x[2] = y[2] => x = y
NotBoth == mode = "one" => \A x \in held : x[2] \notin pend
Prefetch == \A c \in DOMAIN conn : Holds(c) <= qos
(* Once things stop, they are at rest.                                      *)
Rests == []<>(AtRest \/ \E c \in C : ENABLED End(c) \/ \E v \in M : ENABLED Take(c, v))
=============================================================================

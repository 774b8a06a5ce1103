------------------------------- MODULE ConnEnv -------------------------------
(* What the users and the peer of a connection may do, within bounds.        *)
EXTENDS Conn, IOUtils

Budget(rq, own, sd, pg, msg, hbq, hbr, auth, eof, close, cx, gate) ==
  [rq |-> rq, own |-> own, sd |-> sd, pg |-> pg, msg |-> msg, hbq |-> hbq, hbr |-> hbr, auth |-> auth, eof |-> eof, close |-> close, cx |-> cx, gate |-> gate]

\* one small world per property, and larger ones
Worlds(p, deep) ==
  IF ~deep THEN
    CASE p = "T02" -> { Budget(0, 0, 3, 0, 0, 1, 0, 0, 0, 0, 0, 1), Budget(1, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0) }
      [] p = "T06" -> { Budget(2, 0, 0, 0, 2, 0, 0, 0, 0, 0, 1, 0), Budget(1, 0, 0, 0, 3, 0, 0, 0, 1, 0, 0, 0) }
      [] p = "T07" -> { Budget(1, 0, 0, 0, 2, 0, 0, 0, 1, 1, 1, 0), Budget(2, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0), Budget(1, 0, 0, 0, 1, 0, 0, 0, 0, 1, 1, 1) }
      [] p = "T08" -> { Budget(1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0), Budget(0, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0) }
      [] p = "T09" -> { Budget(0, 0, 0, 2, 0, 0, 1, 0, 0, 0, 1, 0), Budget(0, 0, 0, 1, 0, 0, 2, 0, 0, 1, 0, 0), Budget(0, 0, 0, 1, 0, 1, 1, 0, 0, 0, 0, 0), Budget(0, 0, 0, 0, 1, 2, 0, 0, 0, 0, 0, 1), Budget(0, 0, 0, 1, 0, 1, 0, 0, 1, 1, 0, 0) }
      [] p = "T10" -> { Budget(1, 0, 1, 0, 1, 0, 0, 1, 0, 0, 0, 0), Budget(0, 0, 1, 1, 0, 0, 0, 1, 0, 1, 0, 0), Budget(0, 0, 0, 0, 1, 1, 0, 2, 0, 0, 0, 0) }
      [] OTHER -> { Budget(1, 0, 0, 0, 1, 0, 0, 0, 0, 1, 1, 0) }
  ELSE
    CASE p = "T02" -> { Budget(1, 0, 3, 1, 0, 1, 0, 0, 0, 0, 0, 1) }
      [] p = "T06" -> { Budget(2, 0, 0, 0, 3, 0, 0, 0, 1, 0, 1, 0), Budget(3, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0) }
      [] p = "T07" -> { Budget(2, 0, 0, 0, 2, 0, 0, 0, 1, 1, 1, 0), Budget(2, 0, 0, 0, 1, 0, 0, 0, 0, 1, 2, 1) }
      [] p = "T08" -> { Budget(1, 1, 2, 1, 0, 1, 0, 0, 0, 0, 0, 0) }
      [] p = "T09" -> { Budget(0, 0, 0, 2, 0, 1, 2, 0, 0, 1, 1, 0), Budget(0, 0, 0, 2, 1, 1, 1, 0, 1, 0, 0, 1) }
      [] p = "T10" -> { Budget(1, 0, 1, 1, 1, 0, 0, 1, 0, 1, 0, 0), Budget(1, 0, 1, 0, 1, 1, 0, 2, 0, 0, 0, 0) }
      [] OTHER -> { Budget(2, 0, 0, 0, 2, 0, 0, 0, 1, 1, 1, 0) }

\* left: what is left of the budget, k: last tag, ids: identities on the wire that can be replied to, ticks: likewise,
\* ops: operations with a context, started: the receive loop runs, ended: the peer hung up
EnvInit(b) == [left |-> b, k |-> 0, ids |-> {}, ticks |-> {}, ops |-> {}, started |-> FALSE, ended |-> FALSE, gated |-> FALSE]

Spend(v, x) == [v EXCEPT !.left[x] = @ - 1]
Has(v, x) == v.left[x] > 0

\* events the environment can cause, each with the environment's next state
EnvEvents(v) ==
  LET t == v.k + 1  n == [v EXCEPT !.k = t]
      feed(m) == [e |-> "feed", m |-> m]
  IN (IF v.started THEN {} ELSE { <<[e |-> "waitb"], [v EXCEPT !.started = TRUE]>> })
  \cup (IF Has(v, "rq") THEN { <<[e |-> "rrb", r |-> t, tag |-> t, own |-> 0, bad |-> FALSE], [Spend(n, "rq") EXCEPT !.ops = @ \cup {t}]>> } ELSE {})
  \cup (IF Has(v, "own") THEN { <<[e |-> "rrb", r |-> t, tag |-> t, own |-> 100 + t, bad |-> FALSE], [Spend(n, "own") EXCEPT !.ops = @ \cup {t}]>>,
                                <<[e |-> "sendb", r |-> t, tag |-> t, own |-> 100 + t, bad |-> FALSE], Spend(n, "own")>> } ELSE {})
  \cup (IF Has(v, "sd") THEN { <<[e |-> "sendb", r |-> t, tag |-> t, own |-> 0, bad |-> FALSE], Spend(n, "sd")>> } ELSE {})
  \cup (IF Has(v, "pg") THEN { <<[e |-> "pingb", r |-> t], [Spend(n, "pg") EXCEPT !.ops = @ \cup {t}]>> } ELSE {})
  \cup (IF ~v.ended THEN
          (IF Has(v, "msg") THEN { <<feed([k |-> "msg", rel |-> x, tag |-> t]), Spend(n, "msg")>> : x \in v.ids \cup {0, 99} } ELSE {})
          \cup (IF Has(v, "hbq") THEN { <<feed([k |-> "hbq", tag |-> t]), Spend(n, "hbq")>> } ELSE {})
          \cup (IF Has(v, "hbr") THEN { <<feed([k |-> "hbr", tick |-> x, tag |-> 0]), Spend(v, "hbr")>> : x \in v.ticks \cup {0} } ELSE {})
          \cup (IF Has(v, "auth") THEN { <<feed([k |-> "auth", tag |-> t]), Spend(n, "auth")>> } ELSE {})
          \cup (IF Has(v, "eof") THEN { <<feed([k |-> "eof"]), [Spend(v, "eof") EXCEPT !.ended = TRUE]>> } ELSE {})
        ELSE {})
  \cup (IF Has(v, "close") THEN { <<[e |-> "closeb"], Spend(v, "close")>> } ELSE {})
  \cup (IF Has(v, "cx") THEN { <<[e |-> "cancel", r |-> x], [Spend(v, "cx") EXCEPT !.ops = @ \ {x}]>> : x \in v.ops } ELSE {})
  \cup (IF Has(v, "gate") /\ ~v.gated THEN { <<[e |-> "gate"], [Spend(v, "gate") EXCEPT !.gated = TRUE]>> } ELSE {})
  \cup (IF v.gated THEN { <<[e |-> "ungate"], [v EXCEPT !.gated = FALSE]>> } ELSE {})

\* the peer learns identities and ticks from what it receives
Learn(v, e) ==
  IF e.e # "wr" THEN v
  ELSE IF e.k = "hbq" THEN [v EXCEPT !.ticks = @ \cup {e.tick}]
  ELSE IF e.k = "msg" THEN [v EXCEPT !.ids = @ \cup {e.id}]
  ELSE v

P == IOEnv.PROP
=============================================================================

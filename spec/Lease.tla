------------------------------- MODULE Lease --------------------------------
(* A lease agent: its sessions, the connections it dialled and accepted, and *)
(* what pings, closing and the peers' messages do. As in Conn: Ev(s, e) are  *)
(* the states after the visible event e, Step(s) those after one internal    *)
(* step, Quiet(s): nothing is left to do.                                    *)
EXTENDS LeaseWire

Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
EmptyF == [x \in {} |-> 0]
Later(a, b) == IF a > b THEN a ELSE b

Init0 ==
  [ cfg |-> [host |-> <<>>, port |-> 0, exp |-> <<>>, susp |-> <<>>, arb |-> <<>>],
    agent |-> "open",     \* open, closing, closed
    lc |-> FALSE,         \* its listener is closed
    aq |-> <<>>,          \* what Accept is going to return
    wait |-> "no",        \* the accept loop: no, on, over (will return), done
    ins |-> EmptyF,       \* accepted connections
    dials |-> EmptyF,     \* dialled connections: addr, ok, r (whose, 0: not known), cc, gated, werr
    ss |-> EmptyF,        \* sessions
    cur |-> EmptyF,       \* the newest session of an address, where it is known
    ops |-> EmptyF,
    held |-> FALSE ]      \* dialling takes its time

\* failures that Accept returns
Temp == -1
Fatal == -2

NewIn == [buf |-> <<>>, rx |-> <<>>, st |-> "new", hello |-> FALSE, cc |-> FALSE, over |-> FALSE]
\* st: maybe (Establish has not returned), open, closing, closed, failed.
\* over: another one to this address was being established at the same time.
\* lower: the last pong was at least as late as this; first: and could be as
\* early as this (-1: there was none); inst: its instance, once seen; rems:
\* which remote instances its pings may name; shut: when it had been closed
NewSession(a) == [addr |-> a, c |-> -1, st |-> "maybe", over |-> FALSE, lower |-> 0, first |-> -1, inst |-> <<>>, rems |-> {Zeros(8)}, shut |-> 0]

Gated(s, n) == s.ss[n].c >= 0 /\ s.dials[s.ss[n].c].gated
Broken(s, n) == s.ss[n].c >= 0 /\ s.dials[s.ss[n].c].werr
Pings(s, n) == { r \in DOMAIN s.ops : s.ops[r].k = "ping" /\ s.ops[r].s = n }
Live(x) == x.st \in {"maybe", "open", "closing"}
OfAddr(s, a) == { n \in DOMAIN s.ss : s.ss[n].addr = a /\ Live(s.ss[n]) }
Ending(s) == s.agent # "open"

\* a pong for an address, received at t: must says it is well-formed. The
\* newest session gets it, if it is known which that is; whether others do is
\* not specified
Pong(s, m, must) ==
  LET hit == OfAddr(s, m.ep)
      sure(n) == must /\ s.ss[n].st = "open" /\ m.ep \in DOMAIN s.cur /\ s.cur[m.ep] = n /\ \A x \in hit : s.ss[x].st # "maybe"
      mark(op) == IF op.k # "ping" \/ op.s \notin hit THEN op
                  ELSE IF sure(op.s) /\ op.st = "sent" THEN [op EXCEPT !.got = TRUE, !.pre = TRUE, !.pt = Later(@, m.t)]
                  ELSE IF sure(op.s) THEN [op EXCEPT !.pre = TRUE, !.rems = @ \cup {m.rem}]
                  ELSE [op EXCEPT !.pre = TRUE, !.pt = IF @ = 0 THEN m.t ELSE @, !.rems = @ \cup {m.rem}]
      sess(n) == LET x == s.ss[n] IN
                 IF n \notin hit THEN x
                 ELSE IF sure(n) THEN [x EXCEPT !.lower = Later(@, m.t), !.first = IF @ = -1 THEN m.t ELSE @, !.rems = {m.rem}]
                 ELSE [x EXCEPT !.first = IF @ = -1 THEN m.t ELSE @, !.rems = @ \cup {m.rem}]
  IN [s EXCEPT !.ops = [r \in DOMAIN @ |-> mark(@[r])], !.ss = [n \in DOMAIN @ |-> sess(n)]]

Over(s, c) == [s EXCEPT !.ins[c].st = "over", !.ins[c].rx = <<>>]

Process(s, c) ==
  LET x == s.ins[c] IN
  IF x.st # "open" \/ x.rx = <<>> THEN {}
  ELSE LET m == Head(x.rx)
           t == [s EXCEPT !.ins[c].rx = Tail(@)]
       IN CASE m.k \in {"fatal", "eof"} -> { Over(s, c) }
            [] m.k \in {"bad", "odd"} -> { Over(s, c), t }      \* a reader may go on
            [] m.lax -> { Over(s, c), IF m.k = "pong" THEN Pong(t, m, FALSE) ELSE t }
            [] m.k = "pong" -> { Pong(t, m, TRUE) }
            [] OTHER -> { t }

Accept(s) ==
  IF s.wait # "on" \/ s.lc THEN {}
  ELSE IF s.aq = <<>> THEN {}
  ELSE LET x == Head(s.aq)
           t == [s EXCEPT !.aq = Tail(@)]
       IN CASE x = Temp -> { t }
            [] x = Fatal -> { [t EXCEPT !.wait = "over"] }
            [] OTHER -> { [t EXCEPT !.ins[x].st = "open"] }

Step(s) == UNION { Process(s, c) : c \in DOMAIN s.ins } \cup Accept(s)

\* ------------------------------------------------------------- events
WriteOut(s, e) ==
  LET ns == { n \in DOMAIN s.ss : s.ss[n].c = e.c }
      p == PingOf(s.cfg, e.f)
  IN IF ns = {} \/ s.dials[e.c].cc \/ ~p.ok THEN {}
     ELSE LET n == CHOOSE x \in ns : TRUE IN
          IF s.ss[n].inst \notin {<<>>, p.inst} THEN {}
          ELSE { [s EXCEPT !.ops[r].st = "sent", !.ss[n].inst = p.inst]
                 : r \in { x \in Pings(s, n) : e.r \in {0, x} /\ s.ops[x].st = "new" /\ p.rem \in s.ops[x].rems } }

Ends(s, e) ==
  LET op == s.ops[e.r]
      t == [s EXCEPT !.ops = Del(@, e.r)]
  IN CASE op.k = "ping" ->
            LET n == op.s IN
            CASE e.o = "ok" -> IF op.pre /\ op.st = "sent"
                               THEN { IF op.pt = 0 THEN t ELSE [t EXCEPT !.ss[n].lower = Later(@, op.pt)] } ELSE {}
              [] e.o = "ctx" -> IF op.cx THEN { t } ELSE {}
              [] OTHER -> IF s.ss[n].st # "open" \/ Ending(s) \/ Broken(s, n) THEN { t } ELSE {}
       [] op.k = "lpt" ->
            LET x == s.ss[op.s] IN
            IF e.v >= op.lo /\ (e.v > 0 => x.first # -1 /\ e.v >= x.first /\ e.v <= e.t /\ (x.shut = 0 \/ e.v <= x.shut))
            THEN { [t EXCEPT !.ss[op.s].lower = Later(@, e.v)] } ELSE {}
       [] op.k = "est" ->
            LET mine == { d \in DOMAIN s.dials : s.dials[d].r = e.r }
                ds == IF mine # {} THEN mine ELSE { d \in DOMAIN s.dials : s.dials[d].r = 0 /\ s.dials[d].a = op.a }
                st == CASE s.agent = "open" -> "open" [] s.agent = "closing" -> "closing" [] OTHER -> "closed"
                u == [t EXCEPT !.cur = IF s.ss[e.r].over THEN Del(@, op.a) ELSE Upd(@, op.a, e.r)]
            IN IF e.o = "ok"
               THEN IF op.late THEN {}
                    ELSE { [u EXCEPT !.ss[e.r].st = st, !.ss[e.r].c = c, !.dials[c].r = e.r]
                           : c \in { d \in ds : s.dials[d].ok /\ (s.dials[d].cc => Ending(s)) } }
               ELSE (IF Ending(s) THEN { [t EXCEPT !.ss[e.r].st = "failed"] } ELSE {})
                    \cup { [t EXCEPT !.ss[e.r].st = "failed", !.dials[c].r = e.r] : c \in { d \in ds : ~s.dials[d].ok } }
       [] op.k = "sclose" -> { [t EXCEPT !.ss[op.s].st = "closed", !.ss[op.s].shut = IF @ = 0 THEN e.t ELSE @, !.cur = IF s.ss[op.s].addr \in DOMAIN @ /\ @[s.ss[op.s].addr] = op.s THEN Del(@, s.ss[op.s].addr) ELSE @] }
       [] op.k = "aclose" -> { [t EXCEPT !.agent = "closed", !.ss = [n \in DOMAIN @ |-> IF @[n].st \in {"open", "closing"} THEN [@[n] EXCEPT !.st = "closed", !.shut = IF @ = 0 THEN e.t ELSE @] ELSE @[n]]] }
       [] op.k = "wait" -> IF s.wait = "over" \/ Ending(s) \/ s.lc THEN { [t EXCEPT !.wait = "done"] } ELSE {}

NewPing(s, e) == [k |-> "ping", s |-> e.s, st |-> "new", got |-> FALSE, pre |-> FALSE, pt |-> 0, cx |-> FALSE, rems |-> s.ss[e.s].rems]

Begins(s, e) ==
  CASE e.k = "ping" -> [s EXCEPT !.ops = Upd(@, e.r, NewPing(s, e))]
    [] e.k = "lpt" -> [s EXCEPT !.ops = Upd(@, e.r, [k |-> "lpt", s |-> e.s, lo |-> s.ss[e.s].lower])]
    [] e.k = "est" ->
         LET others == { n \in DOMAIN s.ss : s.ss[n].st = "maybe" /\ s.ss[n].addr = e.a } IN
         [s EXCEPT !.ops = Upd(@, e.r, [k |-> "est", a |-> e.a, late |-> s.agent = "closed"]),
                   !.ss = [n \in DOMAIN @ \cup {e.r} |-> IF n = e.r THEN [NewSession(e.a) EXCEPT !.over = others # {}]
                                                         ELSE IF n \in others THEN [@[n] EXCEPT !.over = TRUE] ELSE @[n]]]
    [] e.k = "sclose" -> [s EXCEPT !.ops = Upd(@, e.r, [k |-> "sclose", s |-> e.s]), !.ss[e.s].st = IF @ = "open" THEN "closing" ELSE @]
    [] e.k = "aclose" -> [s EXCEPT !.ops = Upd(@, e.r, [k |-> "aclose"]), !.agent = IF @ = "open" THEN "closing" ELSE @,
                                   !.ss = [n \in DOMAIN @ |-> IF @[n].st = "open" THEN [@[n] EXCEPT !.st = "closing"] ELSE @[n]]]
    [] e.k = "wait" -> [s EXCEPT !.ops = Upd(@, e.r, [k |-> "wait"]), !.wait = "on"]

Feed(s, e) ==
  LET x == s.ins[e.c]
      p == Items(x.buf \o e.b)
      new == [i \in 1..Len(p.items) |-> p.items[i] @@ [t |-> e.t]]
  IN IF x.over \/ x.st = "over" THEN s
     ELSE [s EXCEPT !.ins[e.c] = [x EXCEPT !.buf = p.rest, !.rx = @ \o new, !.over = \E i \in 1..Len(new) : new[i].k = "fatal"]]

Ev(s, e) ==
  CASE e.e = "cfg" -> { [s EXCEPT !.cfg = [host |-> e.host, port |-> e.port, exp |-> e.exp, susp |-> e.susp, arb |-> e.arb]] }
    [] e.e = "callb" -> { Begins(s, e) }
    [] e.e = "calle" -> Ends(s, e)
    [] e.e = "cancel" -> IF e.r \in DOMAIN s.ops /\ s.ops[e.r].k = "ping" THEN { [s EXCEPT !.ops[e.r].cx = TRUE] } ELSE { s }
    \* dialled connections
    [] e.e = "dial" -> { [s EXCEPT !.dials = Upd(@, e.c, [a |-> e.a, ok |-> e.ok, r |-> e.r, cc |-> FALSE, gated |-> FALSE, werr |-> FALSE])] }
    [] e.e = "held" -> { [s EXCEPT !.held = e.on] }
    [] e.e = "wr" -> WriteOut(s, e)
    [] e.e = "cc" ->
         LET ns == { n \in DOMAIN s.ss : s.ss[n].c = e.c } IN
         IF Ending(s) \/ ~s.dials[e.c].ok \/ s.dials[e.c].werr \/ \E n \in ns : s.ss[n].st # "open" THEN { [s EXCEPT !.dials[e.c].cc = TRUE] } ELSE {}
    [] e.e = "gate" -> { [s EXCEPT !.dials[e.c].gated = e.on] }
    [] e.e = "werr" -> { [s EXCEPT !.dials[e.c].werr = TRUE] }
    \* accepted connections
    [] e.e = "in" -> { [s EXCEPT !.ins = Upd(@, e.c, NewIn), !.aq = Append(@, e.c)] }
    [] e.e = "accept" -> { [s EXCEPT !.aq = Append(@, e.x)] }
    [] e.e = "inwr" -> IF s.ins[e.c].st \in {"open", "over"} /\ ~s.ins[e.c].hello /\ e.f = Hello THEN { [s EXCEPT !.ins[e.c].hello = TRUE] } ELSE {}
    [] e.e = "feed" -> { Feed(s, e) }
    [] e.e = "ineof" -> { IF s.ins[e.c].over \/ s.ins[e.c].st = "over" THEN s
                          ELSE [s EXCEPT !.ins[e.c].rx = Append(@, [k |-> "eof", lax |-> FALSE, ep |-> <<>>, rem |-> <<>>, t |-> 0]), !.ins[e.c].over = TRUE] }
    [] e.e = "incc" -> IF s.ins[e.c].st = "over" THEN { [s EXCEPT !.ins[e.c].cc = TRUE] }
                       ELSE IF Ending(s) THEN { [Over(s, e.c) EXCEPT !.ins[e.c].cc = TRUE] } ELSE {}
    [] e.e = "lc" -> IF Ending(s) \/ s.wait \in {"over", "done"} THEN { [s EXCEPT !.lc = TRUE] } ELSE {}
    [] e.e = "alloc" -> IF e.kb <= 16384 + 64 * e.fed THEN { s } ELSE {}
    [] e.e = "end" -> IF e.leak = 0 THEN { s } ELSE {}
    [] OTHER -> {}

Quiet(s) ==
  /\ s.agent = "closed" => s.lc /\ s.wait \in {"no", "done"}
  /\ s.wait # "over"
  /\ s.wait = "on" => s.aq = <<>>
  /\ \A c \in DOMAIN s.ins : LET x == s.ins[c] IN
       /\ x.st = "open" => x.hello /\ x.rx = <<>>
       /\ x.st = "over" => x.cc
  /\ \A c \in DOMAIN s.dials : LET x == s.dials[c] IN
       (x.ok /\ ~\E n \in DOMAIN s.ss : s.ss[n].st \in {"open", "maybe"} /\ (s.ss[n].c = c \/ x.r = n)) => x.cc
  /\ \A r \in DOMAIN s.ops : LET op == s.ops[r] IN
       CASE op.k = "ping" -> /\ s.ss[op.s].st = "open"
                             /\ op.st = "new" => Gated(s, op.s)
                             /\ op.st = "sent" => ~op.got /\ ~op.cx
         [] op.k = "est" -> s.held
         [] op.k = "wait" -> TRUE
         [] OTHER -> FALSE

RECURSIVE Closure(_, _)
Closure(done, new) ==
  IF new = {} THEN done
  ELSE LET d == done \cup new IN Closure(d, UNION { Step(s) : s \in new } \ d)

After(S, e) ==
  IF e.e = "q" THEN { s \in Closure({}, S) : Quiet(s) }
  ELSE UNION { Ev(s, e) : s \in Closure({}, S) }
=============================================================================

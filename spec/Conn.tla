-------------------------------- MODULE Conn --------------------------------
(* One message connection: its receive loop, the table of pending requests,  *)
(* senders, pings, heartbeat answers, rejection and closing.                  *)
(*                                                                            *)
(* A state is a record. Ev(s, e) are the states after the visible event e,    *)
(* Step(s) those after one internal step, Quiet(s) says that nothing is left   *)
(* that has to happen without the environment.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
EmptyF == [x \in {} |-> 0]

Init0 ==
  [ rx |-> <<>>,       \* received and not yet processed
    lp |-> "none",     \* receive loop: none, run, cb (about to call back), in (callback runs), out, done
    cur |-> 0,         \* message the callback is for
    why |-> 0,         \* 0, or the rejection that ended the loop
    closing |-> FALSE, \* Close was called
    closed |-> FALSE,
    cc |-> FALSE,      \* the underlying connection was closed
    rej |-> 0,         \* rejection received
    werr |-> FALSE,    \* the underlying connection fails writes
    gated |-> FALSE,   \* the underlying connection blocks writes
    rq |-> EmptyF,     \* requests
    sd |-> EmptyF,     \* sends
    pg |-> EmptyF,     \* pings
    hb |-> EmptyF,     \* heartbeats to answer: content -> how many
    used |-> {} ]      \* identities the library assigned

Put1(bag, x) == Upd(bag, x, IF x \in DOMAIN bag THEN bag[x] + 1 ELSE 1)
Take1(bag, x) == IF bag[x] = 1 THEN Del(bag, x) ELSE [bag EXCEPT ![x] = @ - 1]

MayFail(s) == s.closing \/ s.closed \/ s.werr

\* requests that wait for a reply to id
Waiting(s, id) == { r \in DOMAIN s.rq : s.rq[r].tab /\ s.rq[r].id = id }

\* ---------------------------------------------------------- internal steps
Process(s) ==
  IF s.lp # "run" \/ s.rx = <<>> THEN {}
  ELSE LET m == Head(s.rx)
           t == [s EXCEPT !.rx = Tail(@)]
       IN CASE m.k = "msg" ->
                 IF m.rel # 0 /\ Waiting(s, m.rel) # {}
                 THEN { [t EXCEPT !.rq[r].tab = FALSE, !.rq[r].rep = m.tag] : r \in Waiting(s, m.rel) }
                 ELSE { [t EXCEPT !.lp = "cb", !.cur = m.tag] }
            [] m.k = "hbq" -> { [t EXCEPT !.hb = Put1(@, m.tag)] }
            [] m.k = "hbr" ->
                 { [t EXCEPT !.pg = [p \in DOMAIN @ |-> IF @[p].tick = m.tick /\ m.tick # 0 THEN [@[p] EXCEPT !.got = TRUE] ELSE @[p]]] }
            [] m.k = "auth" -> { [t EXCEPT !.rej = m.tag, !.closed = TRUE, !.why = m.tag, !.lp = "out"] }
            [] m.k = "other" -> { t }
            [] m.k \in {"eof", "bad"} -> { [t EXCEPT !.lp = "out", !.closed = TRUE] }

Step(s) ==
  Process(s)
  \cup { [s EXCEPT !.rq[r].tab = TRUE] : r \in { x \in DOMAIN s.rq : ~s.rq[x].tab /\ ~s.rq[x].put /\ s.rq[x].id # 0 /\ s.rq[x].rep = 0 } }
  \cup { [s EXCEPT !.rq[r].tab = FALSE, !.rq[r].put = TRUE] : r \in { x \in DOMAIN s.rq : s.rq[x].tab /\ (s.rq[x].cx \/ MayFail(s)) } }
  \cup (IF s.closing /\ ~s.closed THEN { [s EXCEPT !.closed = TRUE] } ELSE {})
  \cup (IF s.closed /\ s.lp = "run" THEN { [s EXCEPT !.lp = "out"] } ELSE {})
  \cup (IF MayFail(s) THEN { [s EXCEPT !.hb = Take1(@, x)] : x \in DOMAIN s.hb } ELSE {})

\* ---------------------------------------------------------- visible events
NewId(s, id) == id # 0 /\ id \notin s.used

Write(s, e) ==
  IF s.cc THEN {}
  ELSE CASE e.k = "msg" ->
         { [s EXCEPT !.rq[r].st = "sent", !.rq[r].id = e.id, !.rq[r].tab = IF s.rq[r].put THEN @ ELSE s.rq[r].rep = 0, !.rq[r].put = TRUE,
                     !.used = IF s.rq[r].own = 0 THEN @ \cup {e.id} ELSE @]
             : r \in { x \in DOMAIN s.rq : /\ s.rq[x].tag = e.tag /\ s.rq[x].st = "new" /\ ~s.rq[x].late /\ ~s.rq[x].bad
                                           /\ IF s.rq[x].own = 0 THEN NewId(s, e.id) ELSE e.id = s.rq[x].own } }
         \cup
         { [s EXCEPT !.sd[r].st = "sent", !.used = IF s.sd[r].own = 0 THEN @ \cup {e.id} ELSE @]
             : r \in { x \in DOMAIN s.sd : /\ s.sd[x].tag = e.tag /\ s.sd[x].st = "new" /\ ~s.sd[x].late /\ ~s.sd[x].bad
                                           /\ IF s.sd[x].own = 0 THEN NewId(s, e.id) ELSE e.id = s.sd[x].own } }
       [] e.k = "hbq" ->
         { [s EXCEPT !.pg[p].st = "sent", !.pg[p].tick = e.tick, !.used = @ \cup {e.id}]
             : p \in { x \in DOMAIN s.pg : s.pg[x].st = "new" /\ ~s.pg[x].late /\ NewId(s, e.id) } }
       [] e.k = "hbr" ->
         IF e.tag \in DOMAIN s.hb /\ NewId(s, e.id)
         THEN { [s EXCEPT !.hb = Take1(@, e.tag), !.used = @ \cup {e.id}] } ELSE {}
       [] e.k = "init" ->
         IF NewId(s, e.id) THEN { [s EXCEPT !.used = @ \cup {e.id}] } ELSE {}
       [] OTHER -> {}

\* may an operation x (begun, not ended) end like this
EndErr(s, x, e) ==
  CASE e.o = "ctx" -> x.cx
    [] e.o = "err" -> ~x.late /\ (MayFail(s) \/ x.bad)
    [] e.o = "rej" -> s.rej # 0 /\ e.t = s.rej
    [] OTHER -> FALSE

Op(s, e) == [tag |-> e.tag, own |-> e.own, bad |-> e.bad, st |-> "new", late |-> s.rej # 0, cx |-> FALSE]

Ev(s, e) ==
  CASE e.e = "feed" -> { [s EXCEPT !.rx = Append(@, e.m)] }
    [] e.e = "waitb" -> { [s EXCEPT !.lp = "run"] }
    [] e.e = "wr" -> Write(s, e)
    [] e.e = "dl" -> IF s.lp = "cb" /\ s.cur = e.tag THEN { [s EXCEPT !.lp = "in"] } ELSE {}
    [] e.e = "dle" -> { [s EXCEPT !.lp = "run", !.cur = 0] }
    [] e.e = "we" ->
         IF s.lp = "out" /\ s.closed /\ (IF s.why # 0 THEN e.o = "rej" /\ e.t = s.why ELSE e.o = "err")
         THEN { [s EXCEPT !.lp = "done"] } ELSE {}
    [] e.e = "rrb" ->
         { [s EXCEPT !.rq = Upd(@, e.r, Op(s, e) @@ [id |-> e.own, tab |-> FALSE, put |-> FALSE, rep |-> 0])] }
    [] e.e = "rre" ->
         IF \/ e.o = "reply" /\ s.rq[e.r].rep # 0 /\ s.rq[e.r].rep = e.t
            \/ EndErr(s, s.rq[e.r], e)
         THEN { [s EXCEPT !.rq = Del(@, e.r)] } ELSE {}
    [] e.e = "sendb" -> { [s EXCEPT !.sd = Upd(@, e.r, Op(s, e))] }
    [] e.e = "sende" ->
         IF \/ e.o = "ok" /\ s.sd[e.r].st = "sent"
            \/ EndErr(s, s.sd[e.r], e)
         THEN { [s EXCEPT !.sd = Del(@, e.r)] } ELSE {}
    [] e.e = "pingb" -> { [s EXCEPT !.pg = Upd(@, e.r, [tick |-> 0, st |-> "new", cx |-> FALSE, got |-> FALSE, late |-> s.rej # 0, bad |-> FALSE])] }
    [] e.e = "pinge" ->
         IF \/ e.o = "ok" /\ s.pg[e.r].got
            \/ EndErr(s, s.pg[e.r], e)
         THEN { [s EXCEPT !.pg = Del(@, e.r)] } ELSE {}
    [] e.e = "cancel" ->
         IF e.r \in DOMAIN s.rq THEN { [s EXCEPT !.rq[e.r].cx = TRUE] }
         ELSE IF e.r \in DOMAIN s.pg THEN { [s EXCEPT !.pg[e.r].cx = TRUE] } ELSE { s }
    [] e.e = "closeb" -> { [s EXCEPT !.closing = TRUE] }
    [] e.e = "closee" -> IF s.closed THEN { s } ELSE {}
    [] e.e = "cc" -> IF s.closed \/ s.closing THEN { [s EXCEPT !.cc = TRUE] } ELSE {}
    [] e.e = "gate" -> { [s EXCEPT !.gated = TRUE] }
    [] e.e = "ungate" -> { [s EXCEPT !.gated = FALSE] }
    [] e.e = "werr" -> { [s EXCEPT !.werr = TRUE] }
    [] e.e = "end" -> IF e.leak = 0 THEN { s } ELSE {}
    [] OTHER -> {}      \* junk on the wire, a crash, a call that hangs

\* ---------------------------------------------------------- quiescence
CanWrite(s) == ~s.gated \/ s.cc

Quiet(s) ==
  /\ s.closing => s.closed
  /\ s.closed => s.cc
  /\ s.lp = "run" => s.rx = <<>> /\ ~s.closed
  /\ s.lp \notin {"cb", "out"}
  /\ \A r \in DOMAIN s.rq :
       LET x == s.rq[r] IN
       /\ x.st = "new" => ~CanWrite(s)                  \* it is being written
       /\ x.st = "sent" /\ CanWrite(s) => x.rep = 0 /\ ~x.cx /\ ~s.closed
  /\ \A r \in DOMAIN s.sd : s.sd[r].st = "new" /\ ~CanWrite(s)
  /\ \A r \in DOMAIN s.pg :
       LET x == s.pg[r] IN
       /\ x.st = "new" => ~CanWrite(s)
       /\ x.st = "sent" => ~x.got /\ ~x.cx /\ ~s.closed
  /\ DOMAIN s.hb # {} => ~CanWrite(s)

\* ---------------------------------------------------------- sets of states
RECURSIVE Closure(_, _)
Closure(done, new) ==
  IF new = {} THEN done
  ELSE LET d == done \cup new IN Closure(d, UNION { Step(s) : s \in new } \ d)

After(S, e) ==
  IF e.e = "q" THEN { s \in Closure({}, S) : Quiet(s) }
  ELSE UNION { Ev(s, e) : s \in Closure({}, S) }
=============================================================================

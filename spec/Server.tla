------------------------------- MODULE Server -------------------------------
(* A server: its accept loop, and a connection like Conn for each peer, that *)
(* begins with a handshake where there is TLS and with the transport-init    *)
(* message, and whose messages are handed to callbacks. Each connection is a *)
(* machine of its own and none looks at another: that they are isolated is   *)
(* how the machine is built. srv is deterministic, loc[c] are the states     *)
(* connection c can be in.                                                   *)
EXTENDS Conn

\* ph: queue (nobody accepted it), open. hs: no, yes (the peer completed the
\* handshake). cbs: messages to call back. run: callbacks that run. good: the
\* handshake can be completed. raw: the TLS session is in use. nhw: negotiation
\* frames written. conn: a client's Connect runs. Clients are machines like
\* that too, except that they are Conn once they are connected
Local0(role, tls, good) ==
  Init0 @@ [role |-> role, ph |-> IF role = "client" THEN "open" ELSE "queue", tls |-> tls, hs |-> IF tls THEN "no" ELSE "yes", good |-> good,
            hello |-> FALSE, cbs |-> {}, run |-> {}, raw |-> FALSE, nhw |-> 0, conn |-> role = "client", failed |-> FALSE, own |-> FALSE]
Srv0 == [tls |-> FALSE, on |-> FALSE, aq |-> <<>>, over |-> FALSE, closing |-> FALSE, lc |-> FALSE, ops |-> {}, made |-> FALSE]
Server0 == [srv |-> Srv0, loc |-> EmptyF, ok |-> TRUE]

Temp == -1
Fatal == -2

\* Conn calls back in its receive loop, a server next to it. A loop that is over
\* has nobody to tell
Norm(s) == CASE s.role = "client" -> s
             [] s.lp = "cb" -> [s EXCEPT !.lp = "run", !.cur = 0, !.cbs = @ \cup {s.cur}]
             [] s.lp = "out" -> [s EXCEPT !.lp = "done"]
             [] OTHER -> s

\* before its transport-init message is written
Failing(s) ==
  IF s.ph = "open" /\ ~s.hello /\ ~s.failed
     /\ (s.werr \/ ~s.good \/ (s.hs = "no" /\ s.rx # <<>>))       \* what arrives then is no handshake
  THEN { IF s.role = "client" THEN [s EXCEPT !.failed = TRUE] ELSE [s EXCEPT !.failed = TRUE, !.lp = "done", !.closed = TRUE] } ELSE {}

LStep(s) == { Norm(t) : t \in Step(s) } \cup Failing(s)

ActorSecurity == 35
LEv(s, e) ==
  CASE e.e = "acc" -> { [s EXCEPT !.ph = "open"] }
    [] e.e = "hs" -> { [s EXCEPT !.hs = "yes"] }
    \* a negotiation frame, TLS records inside
    [] e.e = "hw" -> IF s.ph = "open" /\ s.tls /\ ~s.hello /\ ~s.raw /\ (s.hs = "yes" => ~s.good) /\ e.actor = ActorSecurity /\ e.recs /\ e.nego = (s.nhw = 0) THEN { [s EXCEPT !.nhw = 1] } ELSE {}
    \* a TLS record, after the handshake
    [] e.e = "rec" -> IF s.tls /\ s.hs = "yes" /\ s.good /\ e.t \in {21, 23} /\ s.nhw > 0 THEN { [s EXCEPT !.raw = TRUE] } ELSE {}
    [] e.e = "wr" ->
         IF s.tls /\ ~s.raw THEN {}
         ELSE IF e.k = "init"
         THEN IF s.ph = "open" /\ s.hs = "yes" /\ s.good /\ ~s.hello /\ ~s.failed
              THEN { [t EXCEPT !.hello = TRUE, !.lp = IF s.role = "client" THEN @ ELSE "run"] : t \in Write(s, e) } ELSE {}
         ELSE IF s.hello THEN Write(s, e) ELSE {}
    [] e.e = "conne" -> IF s.conn /\ (IF e.o = "ok" THEN s.hello ELSE s.failed) THEN { [s EXCEPT !.conn = FALSE] } ELSE {}
    [] e.e = "dl" /\ s.role = "server" -> IF e.tag \in s.cbs THEN { [s EXCEPT !.cbs = @ \ {e.tag}, !.run = @ \cup {e.tag}] } ELSE {}
    [] e.e = "dle" /\ s.role = "server" -> { [s EXCEPT !.run = @ \ {e.tag}] }
    [] e.e = "cc" /\ s.role = "client" /\ s.failed -> { [s EXCEPT !.cc = TRUE] }
    [] e.e = "dialed" -> { [s EXCEPT !.own = TRUE] }     \* phabrik dialled it itself
    [] e.e = "clear" -> IF e.n = 0 THEN { s } ELSE {}      \* what is secret seen on the wire
    [] OTHER -> Ev(s, e)

LQuiet(s) ==
  /\ s.ph = "open" /\ ~s.hello => s.failed \/ (s.hs = "no" /\ s.rx = <<>>) \/ (s.hs = "yes" /\ s.gated)
  /\ s.conn => ~s.hello /\ ~s.failed
  /\ s.own /\ s.failed => s.cc
  /\ s.cbs = {} \/ s.run # {} \/ s.closing          \* one at a time will do
  /\ Quiet([s EXCEPT !.rx = IF s.run = {} THEN @ ELSE <<>>, !.lp = IF @ = "run" /\ s.run # {} THEN "done" ELSE @])
  /\ s.ph = "queue" => ~s.cc

RECURSIVE LClosure(_, _)
LClosure(done, new) ==
  IF new = {} THEN done
  ELSE LET d == done \cup new IN LClosure(d, UNION { LStep(s) : s \in new } \ d)

\* ------------------------------------------------------------- the server
SrvEv(v, e) ==
  CASE e.e = "cfg" -> [v EXCEPT !.tls = e.tls, !.made = TRUE]
    [] e.e = "serveb" -> [v EXCEPT !.on = TRUE, !.ops = @ \cup {e.r}]
    [] e.e = "servee" -> [v EXCEPT !.ops = @ \ {e.r}]
    [] e.e = "in" -> [v EXCEPT !.aq = Append(@, e.c)]
    [] e.e = "acc" -> [v EXCEPT !.aq = Tail(@), !.over = @ \/ e.c = Fatal]
    [] e.e = "scloseb" -> [v EXCEPT !.closing = TRUE, !.ops = @ \cup {e.r}]
    [] e.e = "sclosee" -> [v EXCEPT !.ops = @ \ {e.r}]
    [] e.e = "lc" -> [v EXCEPT !.lc = TRUE]

SrvMay(v, e) ==
  CASE e.e = "servee" -> v.over \/ v.closing
    [] e.e = "acc" -> v.on /\ v.aq # <<>> /\ Head(v.aq) = e.c /\ ~v.lc
    [] e.e = "sclosee" -> v.lc
    [] e.e = "lc" -> v.over \/ v.closing
    [] OTHER -> TRUE

SrvQuiet(v) ==
  /\ v.on /\ ~v.over /\ ~v.lc => v.aq = <<>>
  /\ v.closing => v.lc
  /\ v.over \/ v.closing => v.ops = {}

OfSrv == {"cfg", "serveb", "servee", "in", "acc", "scloseb", "sclosee", "lc"}

SAfter(S, e) ==
  LET a == IF e.e \notin OfSrv THEN S ELSE [S EXCEPT !.srv = SrvEv(@, e), !.ok = @ /\ SrvMay(S.srv, e)]
      b == IF e.e = "in" /\ e.c >= 0 THEN [a EXCEPT !.loc = Upd(@, e.c, { Local0("server", a.srv.tls, e.good) })]
           ELSE IF e.e = "connb" THEN [a EXCEPT !.loc = Upd(@, e.c, { Local0("client", e.tls, e.good) })] ELSE a
      c == IF "c" \in DOMAIN e /\ e.e \notin {"in", "connb"} /\ e.c >= 0
           THEN IF e.c \in DOMAIN b.loc THEN [b EXCEPT !.loc[e.c] = UNION { LEv(s, e) : s \in LClosure({}, @) }] ELSE [b EXCEPT !.ok = FALSE]
           ELSE b
  IN CASE e.e = "q" -> [S EXCEPT !.loc = [x \in DOMAIN @ |-> { s \in LClosure({}, @[x]) : LQuiet(s) }], !.ok = @ /\ SrvQuiet(S.srv)]
       [] e.e = "end" -> [S EXCEPT !.ok = @ /\ e.leak = 0]
       [] e.e \in OfSrv \/ "c" \in DOMAIN e -> c
       [] OTHER -> [S EXCEPT !.ok = FALSE]

Possible(S) == S.ok /\ \A c \in DOMAIN S.loc : S.loc[c] # {}
=============================================================================

-------------------------------- MODULE Pipe --------------------------------
(* The pipe: an accept loop like Server's, and for each accepted connection  *)
(* a machine that reads the first frame, opens the connection (d, towards    *)
(* the one who connected), finds the upstream (u), opens that, passes on the *)
(* first message of a plain connection and then copies both ways. Messages   *)
(* are compared as they are, headers and body.                               *)
EXTENDS Server

Sides == {"d", "u"}
Other(x) == IF x = "d" THEN "u" ELSE "d"

\* cfg: checksums that are checked (chc, cbc) and made (ghc, gbc)
Side0 == [have |-> FALSE, tls |-> FALSE, hs |-> FALSE, good |-> TRUE, hello |-> FALSE, nhw |-> FALSE, raw |-> FALSE,
          gated |-> FALSE, werr |-> FALSE, cc |-> FALSE, cfg |-> [chc |-> TRUE, cbc |-> FALSE, ghc |-> TRUE, gbc |-> FALSE]]

\* ph: queue, first (the first frame is awaited), open, find (the upstream is
\* looked for), found. fst: the first message, until it is dealt with like
\* others. cur[x]: the message from x that is being passed on
Pipe0(tls, good, cfg, flt) ==
  [ph |-> "queue", flt |-> flt, ending |-> FALSE, fst |-> <<>>, early |-> TRUE,
   sd |-> [x \in Sides |-> IF x = "d" THEN [Side0 EXCEPT !.have = TRUE, !.tls = tls, !.good = good, !.cfg = cfg] ELSE Side0],
   rx |-> [x \in Sides |-> <<>>], cur |-> [x \in Sides |-> <<>>]]

\* what the reader of side y makes of m
Good(m, y) == m.k = "msg" /\ (y.tls \/ ((y.cfg.chc => m.hc) /\ (y.cfg.cbc => m.bc)))
Item(s, m, f) == [m |-> m, st |-> IF s.flt THEN "need" ELSE "out", first |-> f]
Opened(y) == y.have /\ y.hello
Over(s) == [s EXCEPT !.ending = TRUE, !.ph = "over"]

First(s) ==
  IF s.ph = "first" /\ s.rx["d"] # <<>>
  THEN LET m == Head(s.rx["d"]) IN
       IF Good(m, s.sd["d"]) THEN { [s EXCEPT !.rx["d"] = Tail(@), !.fst = <<m.m>>, !.ph = "open"] } ELSE { Over(s) }
  ELSE {}

\* a side cannot be opened
PFail(s) ==
  IF s.ph \in {"open", "found"} /\ \E x \in Sides : LET y == s.sd[x] IN y.have /\ ~y.hello /\ (y.werr \/ ~y.good \/ (y.tls /\ ~y.hs /\ s.rx[x] # <<>>))
  THEN { Over(s) } ELSE {}

\* whether the filter sees the first message is not specified
Forward(s) ==
  IF s.ph = "found" /\ s.fst # <<>> /\ s.early /\ Opened(s.sd["d"]) /\ Opened(s.sd["u"])
  THEN { [s EXCEPT !.early = FALSE, !.cur["d"] = <<i>>] : i \in { [m |-> s.fst[1], st |-> "out", first |-> TRUE], Item(s, s.fst[1], TRUE) } } ELSE {}

Piping(s) == s.ph = "found" /\ Opened(s.sd["d"]) /\ Opened(s.sd["u"])

Copy(s, x) ==
  IF (Piping(s) \/ (s.ending /\ s.ph = "piped")) /\ s.cur[x] = <<>> /\ s.rx[x] # <<>> /\ (s.sd[x].cc => s.sd[x].tls) /\ (x = "d" => s.fst = <<>> \/ ~s.early)
  THEN LET m == Head(s.rx[x])  t == [s EXCEPT !.rx[x] = Tail(@)]
       IN IF Good(m, s.sd[x]) THEN { [t EXCEPT !.cur[x] = <<Item(s, m.m, FALSE)>>] } ELSE { [t EXCEPT !.ending = TRUE, !.ph = "piped"] }
  ELSE {}

\* it cannot be written
Broken(s, x) ==
  IF s.cur[x] # <<>> /\ s.cur[x][1].st = "out" /\ (s.sd[Other(x)].werr \/ s.sd[Other(x)].cc)
  THEN { [s EXCEPT !.cur[x] = <<>>, !.ending = TRUE, !.ph = "piped"] } ELSE {}

PStep(s) == First(s) \cup PFail(s) \cup Forward(s) \cup UNION { Copy(s, x) \cup Broken(s, x) : x \in Sides }

\* ------------------------------------------------------------ what is seen
Sums(y, e) == y.tls \/ ((IF y.cfg.ghc THEN e.hc = "ok" ELSE e.hc = "zero") /\ (IF y.cfg.gbc THEN e.bc = "ok" ELSE e.bc = "zero"))
Writable(y) == y.have /\ ~y.cc /\ (y.tls => y.raw)

PWrite(s, x, e) ==
  LET y == s.sd[x] IN
  IF ~Writable(y) \/ ~Sums(y, e) THEN {}
  ELSE IF ~y.hello
       THEN IF e.init /\ (x = "d" => s.ph \notin {"queue", "first"}) /\ s.ph # "over" THEN { [s EXCEPT !.sd[x].hello = TRUE] } ELSE {}
       ELSE LET c == s.cur[Other(x)] IN
            IF c # <<>> /\ c[1].st = "out" /\ c[1].m = e.m THEN { [s EXCEPT !.cur[Other(x)] = <<>>] } ELSE {}

PEv(s, e) ==
  CASE e.e = "acc" -> { [s EXCEPT !.ph = IF s.sd["d"].tls THEN "open" ELSE "first"] }
    [] e.e = "feed" -> { [s EXCEPT !.rx[e.side] = Append(@, e.m)] }
    [] e.e = "hs" -> { [s EXCEPT !.sd[e.side].hs = TRUE] }
    [] e.e = "hw" -> LET y == s.sd[e.side] IN
                     IF y.have /\ y.tls /\ ~y.hello /\ ~y.raw /\ (y.hs => ~y.good) /\ s.ph # "queue" /\ e.actor = ActorSecurity /\ e.recs /\ e.nego = ~y.nhw THEN { [s EXCEPT !.sd[e.side].nhw = TRUE] } ELSE {}
    [] e.e = "rec" -> LET y == s.sd[e.side] IN IF y.tls /\ y.hs /\ y.good /\ y.nhw /\ e.t \in {21, 23} THEN { [s EXCEPT !.sd[e.side].raw = TRUE] } ELSE {}
    [] e.e = "wr" -> PWrite(s, e.side, e)
    [] e.e = "find" -> IF s.ph = "open" /\ (s.sd["d"].tls => s.sd["d"].hs /\ s.sd["d"].good) /\ (s.fst # <<>> => s.fst[1].h = e.h)
                       THEN { [s EXCEPT !.ph = "find"] } ELSE {}
    [] e.e = "finde" -> IF e.o = "ok"
                        THEN { [s EXCEPT !.ph = "found", !.sd["u"] = [@ EXCEPT !.have = TRUE, !.tls = e.tls, !.good = e.good, !.cfg = e.cfg]] }
                        ELSE { Over(s) }
    [] e.e = "fb" -> LET c == s.cur[e.side] IN
                     IF c # <<>> /\ c[1].st = "need" /\ c[1].m = e.m THEN { [s EXCEPT !.cur[e.side][1].st = "in"] } ELSE {}
    [] e.e = "fe" -> { [s EXCEPT !.cur[e.side] = IF e.ms = <<>> THEN <<>> ELSE <<[m |-> e.ms[1], st |-> "out", first |-> s.cur[e.side][1].first]>>] }
    [] e.e = "cc" -> IF s.ending THEN { [s EXCEPT !.sd[e.side].cc = TRUE] } ELSE {}
    [] e.e = "gate" -> { [s EXCEPT !.sd[e.side].gated = TRUE] }
    [] e.e = "ungate" -> { [s EXCEPT !.sd[e.side].gated = FALSE] }
    [] e.e = "werr" -> { [s EXCEPT !.sd[e.side].werr = TRUE] }
    [] e.e = "clear" -> IF e.n = 0 THEN { s } ELSE {}
    [] OTHER -> {}

\* ------------------------------------------------------------ at rest
Opening(s, x) == LET y == s.sd[x] IN ~y.hello /\ (y.gated \/ (y.tls /\ ~y.hs /\ s.rx[x] = <<>>))
Stuck(s, x) == s.cur[x] # <<>> /\ (s.cur[x][1].st = "in" \/ (s.cur[x][1].st = "out" /\ s.sd[Other(x)].gated))
PQuiet(s) ==
  IF s.ending THEN /\ \A x \in Sides : s.sd[x].have => s.sd[x].cc
                   /\ \A x \in Sides : s.cur[x] # <<>> => s.cur[x][1].st # "need"
  ELSE CASE s.ph = "queue" -> TRUE
         [] s.ph = "first" -> s.rx["d"] = <<>>
         [] s.ph = "open" -> Opening(s, "d")
         [] s.ph = "find" -> TRUE
         [] s.ph = "found" ->
              IF Opened(s.sd["d"]) /\ Opened(s.sd["u"])
              THEN /\ ~(s.fst # <<>> /\ s.early)
                   \* the other direction may wait for the first message
                   /\ \/ Stuck(s, "d") /\ s.cur["d"][1].first
                      \/ \A x \in Sides : Stuck(s, x) \/ (s.cur[x] = <<>> /\ s.rx[x] = <<>>)
              ELSE \E x \in Sides : Opening(s, x)

RECURSIVE PClosure(_, _)
PClosure(done, new) ==
  IF new = {} THEN done
  ELSE LET d == done \cup new IN PClosure(d, UNION { PStep(s) : s \in new } \ d)

\* ------------------------------------------------------------ all of them
PipeAll0 == [srv |-> Srv0, cfg |-> <<>>, loc |-> EmptyF, ok |-> TRUE]

PAfter(S, e) ==
  LET a == IF e.e \notin OfSrv THEN S ELSE [S EXCEPT !.srv = SrvEv(@, e), !.ok = @ /\ SrvMay(S.srv, e), !.cfg = IF e.e = "cfg" THEN <<e>> ELSE @]
      b == IF e.e = "in" /\ e.c >= 0 THEN [a EXCEPT !.loc = Upd(@, e.c, { Pipe0(a.srv.tls, e.good, a.cfg[1].cfg, a.cfg[1].flt) })] ELSE a
      c == IF "c" \in DOMAIN e /\ e.e # "in" /\ e.c >= 0
           THEN IF e.c \in DOMAIN b.loc THEN [b EXCEPT !.loc[e.c] = UNION { PEv(s, e) : s \in PClosure({}, @) }] ELSE [b EXCEPT !.ok = FALSE]
           ELSE b
  IN CASE e.e = "q" -> [S EXCEPT !.loc = [x \in DOMAIN @ |-> { s \in PClosure({}, @[x]) : PQuiet(s) }], !.ok = @ /\ SrvQuiet(S.srv)]
       [] e.e = "end" -> [S EXCEPT !.ok = @ /\ e.leak = 0]
       [] e.e \in OfSrv \/ "c" \in DOMAIN e -> c
       [] OTHER -> [S EXCEPT !.ok = FALSE]
=============================================================================

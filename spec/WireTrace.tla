----------------------------- MODULE WireTrace -----------------------------
(* Is a recorded trace of senders, receivers and header collections one      *)
(* that Wire allows? S: the states it can be in.                             *)
EXTENDS Wire, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l, S

\* the first event
Cfg == Traces[tid].evs[1]

S0 == [ r |-> Rcv0,
        snd |-> <<>>,     \* the message being sent
        init |-> FALSE,   \* the opening message was written
        hs |-> [x \in {} |-> <<>>] ]

Get(hs, id) == IF id \in DOMAIN hs THEN hs[id] ELSE <<>>
Put(hs, id, v) == [x \in DOMAIN hs \cup {id} |-> IF x = id THEN v ELSE hs[x]]

Out(s, e) ==
  IF ~GoodFrame(e.b, Cfg) THEN {}
  ELSE LET f == Frame(e.b, 1, Plain(Cfg.reg)) IN
       (IF s.snd # <<>> /\ ~s.snd[1].out /\ Carries(f, s.snd[1].m, s.snd[1].body, Cfg.reg)
        THEN { [s EXCEPT !.snd[1].out = TRUE] } ELSE {})
       \cup (IF (~s.init \/ Cfg.aux) /\ f.h.actor = ActorTransport /\ f.h.id # NoId THEN { [s EXCEPT !.init = TRUE] } ELSE {})

With(s, R) == { [s EXCEPT !.r = r] : r \in R }

Ev(s, e) ==
  CASE e.e = "cfg" -> { s }
    [] e.e = "sendb" -> { [s EXCEPT !.snd = <<[m |-> e.m, body |-> e.body, out |-> FALSE]>>] }
    [] e.e = "out" -> Out(s, e)
    [] e.e = "sende" -> IF ~e.err /\ s.snd # <<>> /\ s.snd[1].out THEN { [s EXCEPT !.snd = <<>>] } ELSE {}
    [] e.e = "in" -> { [s EXCEPT !.r.b = @ \o e.b] }
    [] e.e = "eof" -> { [s EXCEPT !.r.eof = TRUE] }
    [] e.e = "dl" -> With(s, RcvDeliver(s.r, e, Cfg))
    [] e.e = "wend" -> IF e.err THEN With(s, RcvEnd(s.r, Cfg)) ELSE {}
    [] e.e = "q" -> IF RcvQuiet(s.r, Cfg) /\ (s.r.st = "end" <=> e.cc) THEN { s } ELSE {}
    [] e.e = "alloc" -> IF e.kb <= 16384 + 64 * e.fed THEN { s } ELSE {}    \* KB allocated, KB received
    \* headers and body too large to be written out here: one the largest header, hl all headers together
    [] e.e = "big" -> IF e.one > 65535 \/ e.hl > 65535 THEN IF e.err /\ e.out = 0 THEN { s } ELSE {}
                      ELSE IF ~e.err /\ e.good THEN { s } ELSE {}
    \* a large frame, changed under a checksum that is checked, or not
    [] e.e = "bigflip" -> IF e.res = (IF e.bad THEN "err" ELSE "ok") THEN { s } ELSE {}
    \* custom headers, values are numbers
    [] e.e = "hset" -> IF e.res # (e.id \notin DOMAIN s.hs) THEN {}
                       ELSE { [s EXCEPT !.hs = IF e.res THEN Put(@, e.id, <<e.v>>) ELSE @] }
    [] e.e = "happ" -> { [s EXCEPT !.hs = Put(@, e.id, Get(@, e.id) \o e.vs)] }
    [] e.e = "hget" -> IF e.vs = Get(s.hs, e.id) THEN { s } ELSE {}
    [] e.e = "hfirst" -> LET x == Get(s.hs, e.id) IN
                         IF e.ok = (x # <<>>) /\ (e.ok => e.v = x[1]) THEN { s } ELSE {}
    [] OTHER -> {}

RECURSIVE Closure(_, _)
Closure(done, new) ==
  IF new = {} THEN done
  ELSE LET d == done \cup new IN Closure(d, UNION { With(s, RcvStep(s.r, Cfg)) : s \in new } \ d)

After(X, e) == UNION { Ev(s, e) : s \in IF e.e \in {"dl", "wend", "q"} THEN Closure({}, X) ELSE X }

Init == tid \in 1..Len(Traces) /\ l = 0 /\ S = {S0}
Next ==
  /\ S # {} /\ l < Len(Traces[tid].evs)
  /\ l' = l + 1
  /\ S' = After(S, Traces[tid].evs[l + 1])
  /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l, S>>

Accepted == S # {}
=============================================================================

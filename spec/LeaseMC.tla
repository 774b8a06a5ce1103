------------------------------ MODULE LeaseMC -------------------------------
(* Lease in small worlds: what the properties promise follows from the rules *)
(* that traces are checked against. h is what an observer wrote down. Bytes  *)
(* are left out here: a piece of a stream is its items, a frame is a record. *)
EXTENDS Lease

CONSTANT Deep
VARIABLES s, b, h
vars == <<s, b, h>>

SymItems(x) == [items |-> x, rest |-> <<>>]
SymPing(cfg, f) == [ok |-> TRUE, inst |-> f.inst, rem |-> f.rem]

A == <<65>>
B == <<66>>
Item(k, ep, lax) == <<[k |-> k, lax |-> lax, ep |-> ep, rem |-> LE(b.t, 8)]>>

Budget(es, pi, po, mal, ca, sc, ac, in) == [est |-> es, ping |-> pi, pong |-> po, bad |-> mal, cancel |-> ca, sclose |-> sc, aclose |-> ac, in |-> in, op |-> 0, t |-> 1, two |-> FALSE]
Worlds ==
  IF ~Deep THEN { Budget(1, 2, 2, 0, 1, 0, 0, 1), Budget(2, 1, 1, 0, 0, 1, 0, 1), Budget(1, 1, 1, 0, 0, 0, 1, 1), Budget(1, 1, 1, 1, 0, 0, 0, 2), [Budget(2, 1, 1, 0, 0, 0, 0, 1) EXCEPT !.two = TRUE] }
  ELSE { Budget(1, 2, 2, 1, 1, 0, 0, 1), Budget(2, 2, 1, 0, 0, 1, 0, 1), Budget(2, 1, 1, 0, 1, 0, 1, 1), Budget(1, 1, 2, 1, 0, 0, 0, 2), [Budget(2, 2, 2, 0, 0, 0, 0, 1) EXCEPT !.two = TRUE],
         Budget(1, 1, 1, 0, 0, 1, 1, 1) }

Opened == { n \in DOMAIN s.ss : s.ss[n].st \in {"open", "closing", "closed"} }
Call(k) == [e |-> "callb", r |-> b.op + 1, k |-> k, a |-> A, s |-> 0]
Use(f) == [b EXCEPT ![f] = @ - 1, !.op = @ + 1]

EnvEvents ==
  (IF b.est > 0 THEN { <<[Call("est") EXCEPT !.a = a], Use("est")>> : a \in IF b.two THEN {A, B} ELSE {A} } ELSE {})
  \cup (IF b.ping > 0 THEN { <<[Call("ping") EXCEPT !.s = n], Use("ping")>> : n \in Opened } ELSE {})
  \cup (IF b.sclose > 0 THEN { <<[Call("sclose") EXCEPT !.s = n], Use("sclose")>> : n \in Opened } ELSE {})
  \cup (IF b.aclose > 0 THEN { <<Call("aclose"), Use("aclose")>> } ELSE {})
  \cup (IF b.cancel > 0 THEN { <<[e |-> "cancel", r |-> r], [b EXCEPT !.cancel = @ - 1]>> : r \in { x \in DOMAIN s.ops : s.ops[x].k = "ping" } } ELSE {})
  \cup (IF b.in > 0 THEN { <<[e |-> "in", c |-> Cardinality(DOMAIN s.ins)], [b EXCEPT !.in = @ - 1]>> } ELSE {})
  \cup (IF b.pong > 0 THEN { <<[e |-> "feed", c |-> c, b |-> Item("pong", a, FALSE), t |-> b.t], [b EXCEPT !.pong = @ - 1, !.t = @ + 1]>>
                             : c \in DOMAIN s.ins, a \in IF b.two THEN {A, B} ELSE {A} } ELSE {})
  \cup (IF b.bad > 0 THEN { <<[e |-> "feed", c |-> c, b |-> x, t |-> b.t], [b EXCEPT !.bad = @ - 1, !.t = @ + 1]>>
                            : c \in DOMAIN s.ins, x \in { Item("bad", <<>>, FALSE), Item("fatal", <<>>, FALSE), Item("none", A, FALSE), Item("pong", B, FALSE) } } ELSE {})

NextC == Cardinality(DOMAIN s.dials)
Cands ==
  { [e |-> "lc"] }
  \cup { [e |-> "dial", c |-> NextC, a |-> s.ops[r].a, ok |-> TRUE, r |-> r] : r \in { x \in DOMAIN s.ops : s.ops[x].k = "est" /\ ~\E d \in DOMAIN s.dials : s.dials[d].r = x } }
  \cup { [e |-> "cc", c |-> c] : c \in { x \in DOMAIN s.dials : ~s.dials[x].cc } }
  \cup { [e |-> "incc", c |-> c] : c \in { x \in DOMAIN s.ins : ~s.ins[x].cc } }
  \cup { [e |-> "inwr", c |-> c, f |-> Hello] : c \in { x \in DOMAIN s.ins : ~s.ins[x].hello } }
  \cup UNION { { [e |-> "calle", r |-> r, o |-> o, t |-> b.t] : o \in {"ok", "err", "ctx"} }
               \cup (IF s.ops[r].k = "ping" /\ s.ops[r].st = "new" /\ s.ss[s.ops[r].s].c >= 0
                     THEN { [e |-> "wr", c |-> s.ss[s.ops[r].s].c, r |-> 0, f |-> [inst |-> LE(s.ops[r].s, 8), rem |-> x]] : x \in s.ops[r].rems } ELSE {}) : r \in DOMAIN s.ops }

\* an agent that is done says so once; closing is over when what was open is closed
Shows(e) ==
  /\ e.e = "lc" => ~s.lc
  /\ e.e = "calle" /\ s.ops[e.r].k \in {"sclose", "aclose"} => e.o = "ok"
  /\ e.e = "calle" /\ s.ops[e.r].k = "est" => e.o \in {"ok", "err"}
Out == UNION { { <<e, y>> : y \in Ev(s, e) } : e \in { c \in Cands : Shows(c) } }

H0 == [ fed |-> {},        \* pongs: <<address, time>>
        begun |-> EmptyF,  \* ping -> the time it began
        ended |-> FALSE,   \* a ping succeeded that must not
        late |-> {},       \* pings begun after their session was closed
        over |-> {},       \* sessions that were closed
        gone |-> FALSE, lateest |-> {}, bad |-> FALSE ]

See(e) ==
  CASE e.e = "feed" -> LET x == e.b[1] IN IF x.k = "pong" THEN [h EXCEPT !.fed = @ \cup {<<x.ep, e.t>>}] ELSE h
    [] e.e = "callb" /\ e.k = "ping" -> [h EXCEPT !.begun = Upd(@, e.r, s.ss[e.s].lower), !.late = IF e.s \in h.over THEN @ \cup {e.r} ELSE @]
    [] e.e = "callb" /\ e.k = "est" -> IF h.gone THEN [h EXCEPT !.lateest = @ \cup {e.r}] ELSE h
    [] e.e = "calle" ->
         LET op == s.ops[e.r] IN
         CASE op.k = "ping" /\ e.o = "ok" ->
                [h EXCEPT !.bad = @ \/ e.r \in h.late \/ ~\E p \in h.fed : p[1] = s.ss[op.s].addr]
           [] op.k = "sclose" -> [h EXCEPT !.over = @ \cup {op.s}]
           [] op.k = "aclose" -> [h EXCEPT !.over = @ \cup Opened, !.gone = TRUE]
           [] op.k = "est" /\ e.o = "ok" -> [h EXCEPT !.bad = @ \/ e.r \in h.lateest]
           [] OTHER -> h
    [] OTHER -> h

Start == [Init0 EXCEPT !.ops = Upd(@, 1000, [k |-> "wait"]), !.wait = "on"]
Init == s = Start /\ b \in Worlds /\ h = H0
Internal == \E y \in Step(s) : s' = y /\ UNCHANGED <<b, h>>
Shown == \E p \in Out : s' = p[2] /\ h' = See(p[1]) /\ UNCHANGED b
Sys == Internal \/ Shown
Env == \E p \in EnvEvents : b' = p[2] /\ s' \in Ev(s, p[1]) /\ h' = See(p[1])
Next == Sys \/ Env
Spec == Init /\ [][Next]_vars /\ WF_vars(Sys)

L01 == ~h.bad
\* closed sessions have no waiting pings once all is at rest; nothing is owed
Rest == Step(s) = {} /\ Out = {} => Quiet(s)
\* the newest session of an address is an open one
Newest == \A a \in DOMAIN s.cur : s.ss[s.cur[a]].addr = a /\ s.ss[s.cur[a]].st # "failed"
\* the time of the last pong never runs backwards
Forward == [][\A n \in DOMAIN s.ss : s'.ss[n].lower >= s.ss[n].lower]_vars
Settles == <>[](Step(s) = {} /\ Out = {})
=============================================================================

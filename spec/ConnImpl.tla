------------------------------ MODULE ConnImpl ------------------------------
(* The algorithm of transport/conn.go and requesttable.go, one step per      *)
(* access to shared state, next to a monitor that follows Conn: every         *)
(* visible event has to be one that Conn allows, and whenever the             *)
(* implementation comes to rest Conn must be allowed to rest too.             *)
EXTENDS ConnEnv

CONSTANT Deep

VARIABLES i, v, S

vars == <<i, v, S>>

\* writers: goroutines in SendOneWay. kind: rq, sd, pg, hb
New(kind, tag, own) == [kind |-> kind, tag |-> tag, own |-> own, pc |-> "begin", id |-> own, tick |-> 0, cx |-> FALSE, out |-> "", t |-> 0]

I0 == [ rx |-> <<>>, lp |-> "none", m |-> [k |-> "none"], why |-> 0,
        fe |-> 0, nc |-> FALSE, chc |-> FALSE, once |-> 0,
        tb |-> EmptyF, ch |-> EmptyF, pings |-> EmptyF, pong |-> {},
        g |-> EmptyF, cl |-> EmptyF, ntick |-> 0, nid |-> 0, nh |-> 0, gated |-> FALSE ]

NextId(x) == x.nid + 1
Tau == [e |-> "tau"]
\* results are pairs <<event, state>>
Goto(x, r, pc) == [x EXCEPT !.g[r].pc = pc]
EndWith(x, r, o, t) == [x EXCEPT !.g[r].pc = "end", !.g[r].out = o, !.g[r].t = t]

\* ------------------------------------------------------------ goroutines
WrEvent(x, r) ==
  LET o == x.g[r] IN
  [e |-> "wr", k |-> CASE o.kind \in {"rq", "sd"} -> "msg" [] o.kind = "pg" -> "hbq" [] OTHER -> "hbr", id |-> o.id, tag |-> o.tag, tick |-> o.tick]

EndEvent(x, r) ==
  LET o == x.g[r]  d == [x EXCEPT !.g = Del(@, r)] IN
  CASE o.kind = "rq" -> <<[e |-> "rre", r |-> r, o |-> o.out, t |-> o.t], d>>
    [] o.kind = "sd" -> <<[e |-> "sende", r |-> r, o |-> o.out, t |-> o.t], d>>
    [] o.kind = "pg" -> <<[e |-> "pinge", r |-> r, o |-> o.out, t |-> o.t], d>>
    [] OTHER -> <<Tau, d>>

Run(x, r) ==
  LET o == x.g[r]
      after(y, out, t) == IF o.kind = "rq" THEN [EndWith(y, r, out, t) EXCEPT !.g[r].pc = "drop"]
                          ELSE IF o.kind = "pg" THEN [EndWith(y, r, out, t) EXCEPT !.g[r].pc = "forget"]
                          ELSE EndWith(y, r, out, t)
  IN CASE o.pc = "begin" ->   \* assign the identity; requests enter the table, pings are registered
            LET a == IF o.id = 0 /\ o.kind # "sd" THEN [x EXCEPT !.nid = @ + 1, !.g[r].id = NextId(x)] ELSE x
                b == IF o.kind = "pg" THEN [a EXCEPT !.ntick = @ + 1, !.g[r].tick = a.ntick + 1, !.pings = Upd(@, a.ntick + 1, r)] ELSE a
            IN { <<Tau, Goto(b, r, IF o.kind = "rq" THEN "put" ELSE "fe")>> }
       [] o.pc = "put" -> { <<Tau, [Goto(x, r, "fe") EXCEPT !.tb = Upd(@, o.id, r), !.ch = Upd(@, r, [v |-> <<>>, c |-> FALSE])]>> }
       [] o.pc = "fe" -> { <<Tau, IF x.fe # 0 THEN after(x, "rej", x.fe) ELSE Goto(x, r, "id")>> }
       [] o.pc = "id" -> { <<Tau, Goto(IF o.id = 0 THEN [x EXCEPT !.nid = @ + 1, !.g[r].id = NextId(x)] ELSE x, r, "wr")>> }
       [] o.pc = "wr" ->
            IF x.nc THEN { <<Tau, after(x, "err", 0)>> }
            ELSE IF x.gated THEN {}
            ELSE { <<WrEvent(x, r), CASE o.kind \in {"rq", "pg"} -> Goto(x, r, "wait") [] OTHER -> EndWith(x, r, "ok", 0)>> }
       [] o.pc = "wait" ->
            IF o.kind = "rq" THEN
              (IF o.cx THEN { <<Tau, after(x, "ctx", 0)>> } ELSE {})
              \cup (IF x.ch[r].v # <<>> THEN { <<Tau, after(x, "reply", Head(x.ch[r].v))>> }
                    ELSE IF x.ch[r].c THEN { <<Tau, after(x, "err", 0)>> } ELSE {})
            ELSE
              (IF o.cx THEN { <<Tau, after(x, "ctx", 0)>> } ELSE {})
              \cup (IF x.chc THEN { <<Tau, after(x, "err", 0)>> } ELSE {})
              \cup (IF r \in x.pong THEN { <<Tau, after(x, "ok", 0)>> } ELSE {})
       [] o.pc = "drop" -> { <<Tau, Goto(IF o.id \in DOMAIN x.tb THEN [x EXCEPT !.tb = Del(@, o.id), !.ch[x.tb[o.id]].c = TRUE] ELSE x, r, "end")>> }
       [] o.pc = "forget" -> { <<Tau, Goto([x EXCEPT !.pings = Del(@, o.tick)], r, "end")>> }
       [] o.pc = "pong" ->   \* handler of a heartbeat response
            { <<Tau, Goto(IF o.tick \in DOMAIN x.pings THEN [x EXCEPT !.pong = @ \cup {x.pings[o.tick]}, !.pings = Del(@, o.tick)] ELSE x, r, "end")>> }
       [] o.pc = "end" -> { EndEvent(x, r) }

\* Close: by user c, or by the receive loop (c = 0)
Closing(x, c, pc, set(_, _)) ==
  CASE pc = "conn" -> { <<IF x.nc THEN Tau ELSE [e |-> "cc"], set([x EXCEPT !.nc = TRUE], "once")>> }
    [] pc = "once" -> IF x.once = 0 THEN { <<Tau, set([x EXCEPT !.once = 1, !.chc = TRUE], "range")>> }
                      ELSE IF x.once = 2 THEN { <<Tau, set(x, "closed")>> } ELSE {}
    [] pc = "range" -> IF DOMAIN x.tb = {} THEN { <<Tau, set([x EXCEPT !.once = 2], "closed")>> }
                       ELSE { <<Tau, set([x EXCEPT !.tb = Del(@, d), !.ch[x.tb[d]].c = TRUE], "range")>> : d \in DOMAIN x.tb }
    [] OTHER -> {}

Loop(x) ==
  CASE x.lp = "run" ->
         IF x.nc THEN { <<Tau, [x EXCEPT !.lp = "conn"]>> }
         ELSE IF x.rx = <<>> THEN {}
         ELSE LET m == Head(x.rx)  h == 1001 + x.nh  y == [x EXCEPT !.rx = Tail(@), !.nh = IF m.k \in {"hbq", "hbr"} THEN @ + 1 ELSE @] IN
              CASE m.k \in {"eof", "bad"} -> { <<Tau, [y EXCEPT !.lp = "conn"]>> }
                [] m.k = "hbq" -> { <<Tau, [y EXCEPT !.g = Upd(@, h, New("hb", m.tag, 0))]>> }
                [] m.k = "hbr" -> { <<Tau, [y EXCEPT !.g = Upd(@, h, [New("hb", 0, 0) EXCEPT !.pc = "pong", !.tick = m.tick])]>> }
                [] m.k = "auth" -> { <<Tau, [y EXCEPT !.fe = m.tag, !.why = m.tag, !.lp = "conn"]>> }
                [] OTHER -> { <<Tau, [y EXCEPT !.m = m, !.lp = "table"]>> }
    [] x.lp = "table" ->
         IF x.m.rel # 0 /\ x.m.rel \in DOMAIN x.tb
         THEN { <<Tau, [x EXCEPT !.ch[x.tb[x.m.rel]].v = Append(@, x.m.tag), !.tb = Del(@, x.m.rel), !.lp = "run"]>> }
         ELSE { <<[e |-> "dl", tag |-> x.m.tag], [x EXCEPT !.lp = "cb"]>> }
    [] x.lp = "cb" -> { <<[e |-> "dle"], [x EXCEPT !.lp = "run"]>> }
    [] x.lp \in {"conn", "once", "range"} -> Closing(x, 0, x.lp, LAMBDA y, pc : [y EXCEPT !.lp = pc])
    [] x.lp = "closed" -> { <<[e |-> "we", o |-> IF x.why # 0 THEN "rej" ELSE "err", t |-> x.why], [x EXCEPT !.lp = "done"]>> }
    [] OTHER -> {}

Closer(x, c) ==
  IF x.cl[c] = "closed" THEN { <<[e |-> "closee"], [x EXCEPT !.cl = Del(@, c)]>> }
  ELSE Closing(x, c, x.cl[c], LAMBDA y, pc : [y EXCEPT !.cl[c] = pc])

Steps(x) == Loop(x) \cup UNION { Run(x, r) : r \in DOMAIN x.g } \cup UNION { Closer(x, c) : c \in DOMAIN x.cl }

\* what an event of the environment does to the implementation
Does(x, e) ==
  CASE e.e = "feed" -> [x EXCEPT !.rx = Append(@, e.m)]
    [] e.e = "waitb" -> [x EXCEPT !.lp = "run"]
    [] e.e = "rrb" -> [x EXCEPT !.g = Upd(@, e.r, New("rq", e.tag, e.own))]
    [] e.e = "sendb" -> [x EXCEPT !.g = Upd(@, e.r, [New("sd", e.tag, e.own) EXCEPT !.pc = "fe"])]
    [] e.e = "pingb" -> [x EXCEPT !.g = Upd(@, e.r, New("pg", 0, 0))]
    [] e.e = "cancel" -> IF e.r \in DOMAIN x.g THEN [x EXCEPT !.g[e.r].cx = TRUE] ELSE x
    [] e.e = "closeb" -> [x EXCEPT !.cl = Upd(@, Cardinality(DOMAIN @) + 1, "conn")]
    [] e.e = "gate" -> [x EXCEPT !.gated = TRUE]
    [] e.e = "ungate" -> [x EXCEPT !.gated = FALSE]

Init == i = I0 /\ v \in { EnvInit(b) : b \in Worlds(P, Deep) } /\ S = {Init0}

Sys == \E p \in Steps(i) :
         /\ i' = p[2]
         /\ IF p[1].e = "tau" THEN UNCHANGED <<v, S>> ELSE S' = After(S, p[1]) /\ v' = Learn(v, p[1])
Env == \E p \in EnvEvents(v) : i' = Does(i, p[1]) /\ v' = p[2] /\ S' = After(S, p[1])
Next == Sys \/ Env
Spec == Init /\ [][Next]_vars /\ WF_vars(Sys)

\* ------------------------------------------------------------ checked
Refines == S # {}
Rests == Steps(i) = {} => After(S, [e |-> "q"]) # {}
\* the implementation always comes to rest
Settles == <>[](Steps(i) = {})
=============================================================================

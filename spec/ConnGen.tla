------------------------------ MODULE ConnGen ------------------------------
(* Scripts for the driver: what users and peer do in behaviours of Conn in   *)
(* which the connection comes to rest after every step.                       *)
EXTENDS ConnMC, Json, SequencesExt

CONSTANT Len0

\* let the connection do all it can, one canonical way
RECURSIVE Settle(_, _)
Settle(x, w) ==
  LET os == Out(x, w, 0) IN
  IF Step(x) # {} THEN Settle(CHOOSE y \in Step(x) : TRUE, w)
  ELSE IF os = {} THEN <<x, w>>
  ELSE LET o == CHOOSE o \in os : TRUE IN Settle(o[2], Learn(w, o[1]))

GenWorlds ==
  CASE P = "T02" -> { Budget(1, 0, 2, 1, 0, 2, 0, 0, 0, 0, 0, 1), Budget(0, 1, 2, 0, 1, 1, 0, 0, 0, 1, 0, 1) }
    [] P = "T06" -> { Budget(2, 0, 0, 0, 4, 0, 0, 0, 0, 0, 1, 0), Budget(1, 1, 0, 0, 3, 0, 0, 0, 1, 1, 1, 0) }
    [] P = "T07" -> { Budget(2, 0, 0, 0, 2, 0, 0, 0, 1, 1, 1, 1) }
    [] P = "T08" -> { Budget(1, 2, 2, 1, 0, 1, 0, 0, 0, 0, 0, 0) }
    [] P = "T09" -> { Budget(0, 0, 0, 2, 1, 2, 3, 0, 0, 0, 1, 0), Budget(0, 0, 0, 2, 0, 1, 2, 0, 1, 1, 0, 1) }
    [] P = "T10" -> { Budget(1, 0, 1, 0, 1, 0, 0, 2, 0, 1, 0, 0), Budget(1, 0, 1, 1, 0, 1, 0, 1, 0, 0, 0, 1) }
    [] OTHER -> { Budget(1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1) }

Str(w, e) ==
  CASE e.e = "waitb" -> "wait"
    [] e.e = "rrb" -> IF e.own = 0 THEN "req" ELSE "req:0;1"
    [] e.e = "sendb" -> IF e.own = 0 THEN "send" ELSE "send:0;1"
    [] e.e = "pingb" -> "ping"
    [] e.e = "closeb" -> "close"
    [] e.e = "cancel" -> "cancelt:" \o ToString(e.r)
    [] e.e \in {"gate", "ungate"} -> e.e
    [] e.m.k = "msg" -> IF e.m.rel = 0 THEN "msg" ELSE IF e.m.rel = 99 THEN "msgrel:1" ELSE "reply:" \o ToString(w.who[e.m.rel])
    [] e.m.k = "hbr" -> IF e.m.tick = 0 THEN "pongold:1;1" ELSE "pong:" \o ToString(e.m.tick)
    [] e.m.k = "auth" -> "authrej"
    [] OTHER -> e.m.k

\* the driver's identities: who wrote which
Who(x, w) == [ w EXCEPT !.who = [ id \in { x.rq[r].id : r \in DOMAIN x.rq } \cup DOMAIN @ |->
                 IF \E r \in DOMAIN x.rq : x.rq[r].id = id THEN x.rq[CHOOSE r \in DOMAIN x.rq : x.rq[r].id = id].tag ELSE @[id] ] ]

RECURSIVE Paths(_, _, _)
Paths(n, x, w0) ==
  LET w == Who(x, w0)
      evs == { p \in EnvEvents(w) : \/ p[1].e # "feed" \/ p[1].m.k # "msg" \/ p[1].m.rel \in {0, 99} \cup DOMAIN w.who }
  IN IF n = 0 \/ evs = {} THEN { <<>> }
     ELSE UNION { LET y == CHOOSE y \in Ev(x, p[1]) : TRUE
                      z == Settle(y, p[2])
                  IN { <<Str(w, p[1])>> \o q : q \in Paths(n - 1, z[1], z[2]) } : p \in evs }

\* the receive loop runs from the start, or is never run, or any time
Start(b) == EnvInit(b) @@ [who |-> EmptyF]
All == UNION { Paths(Len0, Init0, Start(b)) : b \in GenWorlds }

ASSUME IOEnv.GEN_FILE = "" \/ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(All))

GenInit == s = 0 /\ v = 0 /\ h = 0
GenSpec == GenInit /\ [][UNCHANGED vars]_vars
=============================================================================

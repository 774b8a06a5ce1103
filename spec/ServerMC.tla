------------------------------ MODULE ServerMC ------------------------------
(* Server itself, in small worlds: two peers with scripts of their own, a    *)
(* server that is closed, or whose listener fails, at any time. h is what an  *)
(* observer wrote down.                                                       *)
EXTENDS Server

CONSTANT Deep

VARIABLES v, st, env, h
vars == <<v, st, env, h>>

Cs == {0, 1}
Msg(t) == [e |-> "feed", m |-> [k |-> "msg", rel |-> 0, tag |-> t]]
Hbq(t) == [e |-> "feed", m |-> [k |-> "hbq", tag |-> t]]
Bad == [e |-> "feed", m |-> [k |-> "bad"]]
Eof == [e |-> "feed", m |-> [k |-> "eof"]]
Gate == [e |-> "gate"]
Hs == [e |-> "hs"]

\* connection 0 does anything, connection 1 is well behaved
Scripts0 == { <<>>, <<Msg(1)>>, <<Msg(1), Msg(2)>>, <<Bad>>, <<Msg(1), Bad>>, <<Eof>>, <<Gate, Msg(1)>>, <<[e |-> "werr"], Hbq(3)>> }
            \cup (IF Deep THEN { <<Msg(1), Bad, Msg(2)>>, <<Gate, Hbq(3), Eof>>, <<Msg(1), [e |-> "werr"], Msg(2)>> } ELSE {})
Scripts1 == { <<Msg(11), Msg(12)>>, <<Hbq(13), Msg(11)>> }
Tls(f) == <<Hs>> \o f      \* the peer completes the handshake, or (without) does not
Worlds == { [tls |-> FALSE, good |-> TRUE, c |-> (0 :> a @@ 1 :> b)] : a \in Scripts0, b \in Scripts1 }
          \cup { [tls |-> TRUE, good |-> g, c |-> (0 :> a @@ 1 :> Tls(b))] : g \in {TRUE}, a \in { Tls(x) : x \in Scripts0 } \cup { <<>>, <<Bad>>, <<Eof>> }, b \in Scripts1 }
          \cup { [tls |-> TRUE, good |-> FALSE, c |-> (0 :> a @@ 1 :> Tls(b))] : a \in { <<Hs, Msg(1)>>, <<Bad>>, <<>> }, b \in Scripts1 }

H0 == [took |-> EmptyF, lateacc |-> FALSE, fed |-> {}, answered |-> {}, sent |-> EmptyF, early |-> FALSE, cross |-> FALSE]

Init ==
  \E w \in Worlds, s \in { <<0, 1>>, <<0, Temp, 1>>, <<1, Fatal, 0>> } :
    /\ v = [Srv0 EXCEPT !.tls = w.tls, !.made = TRUE]
    /\ st = EmptyF
    /\ env = [in |-> s, c |-> w.c, good |-> w.good, serve |-> TRUE, close |-> TRUE]
    /\ h = H0

Count(f, k) == Upd(f, k, IF k \in DOMAIN f THEN f[k] + 1 ELSE 1)
See(c, e) ==
  CASE e.e = "feed" /\ e.m.k = "msg" -> [h EXCEPT !.fed = @ \cup {<<c, e.m.tag>>}]
    [] e.e = "dl" -> [h EXCEPT !.took = Count(@, e.tag), !.cross = @ \/ <<c, e.tag>> \notin h.fed]
    [] e.e = "wr" -> [h EXCEPT !.early = @ \/ (st[c].tls /\ st[c].hs # "yes"),
                               !.sent = IF e.k = "msg" THEN Count(@, <<c, e.tag>>) ELSE @]
    [] e.e = "sendb" -> [h EXCEPT !.answered = @ \cup {<<c, e.tag>>}]
    [] e.e = "acc" -> [h EXCEPT !.lateacc = @ \/ v.lc]
    [] OTHER -> h

\* what connection c could show next
FreshId(x) == 1 + Cardinality(x.used)
Cands(x) ==
  { [e |-> "cc"], [e |-> "wr", k |-> "init", id |-> FreshId(x), tag |-> 0, tick |-> 0] }
  \cup (IF x.nhw = 0 THEN { [e |-> "hw", actor |-> ActorSecurity, nego |-> TRUE, recs |-> TRUE] } ELSE {})
  \cup (IF x.raw THEN {} ELSE { [e |-> "rec", t |-> 23] })
  \cup { [e |-> "dl", tag |-> t] : t \in x.cbs } \cup { [e |-> "dle", tag |-> t] : t \in { u \in x.run : u + 100 \notin DOMAIN x.sd } }
  \cup UNION { { [e |-> "wr", k |-> "msg", id |-> FreshId(x), tag |-> x.sd[r].tag, tick |-> 0], [e |-> "sende", r |-> r, o |-> "ok", t |-> 0], [e |-> "sende", r |-> r, o |-> "err", t |-> 0] } : r \in DOMAIN x.sd }
  \cup { [e |-> "wr", k |-> "hbr", id |-> FreshId(x), tag |-> t, tick |-> 0] : t \in DOMAIN x.hb }

OkOut(x, e) == (e.e = "wr" => ~x.gated) /\ (e.e = "cc" => ~x.cc)
Out(x) == UNION { { <<e, y>> : y \in LEv(x, e) } : e \in { c \in Cands(x) : OkOut(x, c) } }

SrvOuts ==
  (IF v.aq = <<>> THEN {} ELSE { [e |-> "acc", c |-> Head(v.aq)] })
  \cup { [e |-> "servee", r |-> r] : r \in v.ops \cap {"serve"} } \cup { [e |-> "sclosee", r |-> r] : r \in v.ops \cap {"close"} }
  \cup (IF v.lc THEN {} ELSE { [e |-> "lc"] })

SysC(c) ==
  /\ c \in DOMAIN st
  /\ UNCHANGED <<v, env>>
  /\ \/ \E y \in LStep(st[c]) : y # st[c] /\ st' = [st EXCEPT ![c] = y] /\ h' = h
     \/ \E p \in Out(st[c]) : st' = [st EXCEPT ![c] = p[2]] /\ h' = See(c, p[1])
SysS ==
  \E e \in SrvOuts :
    /\ SrvMay(v, e)
    /\ ~(e.e = "acc" /\ v.over)                  \* Serve ends
    /\ v' = SrvEv(v, e)
    /\ st' = IF e.e = "acc" /\ e.c >= 0 THEN [st EXCEPT ![e.c] = CHOOSE y \in LEv(@, e) : TRUE] ELSE st
    /\ h' = IF e.e = "acc" THEN See(e.c, e) ELSE h
    /\ UNCHANGED env
Sys == SysS \/ \E c \in Cs : SysC(c)

\* the callback answers, once
Answers(c) == { t \in st[c].run : <<c, t + 100>> \notin h.answered }

Env ==
  \/ /\ env.serve /\ v' = SrvEv(v, [e |-> "serveb", r |-> "serve"]) /\ env' = [env EXCEPT !.serve = FALSE] /\ UNCHANGED <<st, h>>
  \/ /\ env.close /\ v' = SrvEv(v, [e |-> "scloseb", r |-> "close"]) /\ env' = [env EXCEPT !.close = FALSE] /\ UNCHANGED <<st, h>>
  \/ /\ env.in # <<>>
     /\ LET c == Head(env.in) IN
        /\ v' = SrvEv(v, [e |-> "in", c |-> c])
        /\ st' = IF c >= 0 THEN Upd(st, c, Local0("server", v.tls, env.good \/ c = 1)) ELSE st
        /\ env' = [env EXCEPT !.in = Tail(@)] /\ UNCHANGED h
  \/ \E c \in DOMAIN st :
       /\ env.c[c] # <<>>
       /\ LET e == Head(env.c[c]) IN
          /\ e.e = "hs" => st[c].ph = "open" /\ st[c].nhw > 0
          /\ e.e = "feed" /\ e.m.k \in {"msg", "hbq"} => st[c].hs = "yes"
          /\ \E y \in LEv(st[c], e) : st' = [st EXCEPT ![c] = y]
          /\ h' = See(c, e)
       /\ env' = [env EXCEPT !.c[c] = Tail(@)]
       /\ UNCHANGED v
  \/ \E c \in DOMAIN st : \E t \in Answers(c) :
       LET e == [e |-> "sendb", r |-> t + 100, tag |-> t + 100, own |-> 0, bad |-> FALSE] IN
       /\ \E y \in LEv(st[c], e) : st' = [st EXCEPT ![c] = y]
       /\ h' = See(c, e) /\ UNCHANGED <<v, env>>

Next == Sys \/ Env
Spec == Init /\ [][Next]_vars /\ WF_vars(Sys)

\* ---------------------------------------------------------- the properties
Once == \A t \in DOMAIN h.took : h.took[t] <= 1
Own == ~h.cross /\ \A x \in DOMAIN h.sent : x \in h.answered /\ h.sent[x] <= 1
NoLate == ~h.lateacc
Authentic == ~h.early                    \* nothing is written before the handshake is over
AtRest == ~ENABLED Sys
Rest == AtRest => SrvQuiet(v) /\ \A c \in DOMAIN st : LQuiet(st[c])
\* whatever happens on connection 0, connection 1 is served
Served == AtRest /\ 1 \in DOMAIN st /\ st[1].ph = "open" => { x \in h.fed : x[1] = 1 } \subseteq { <<1, t>> : t \in DOMAIN h.took }
Sealed == AtRest /\ 1 \in DOMAIN st /\ st[1].ph = "open" => \A x \in h.answered : x[1] = 1 => x \in DOMAIN h.sent
Settles == <>[](~ENABLED Sys)
=============================================================================

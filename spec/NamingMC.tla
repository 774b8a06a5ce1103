------------------------------ MODULE NamingMC ------------------------------
(* Naming in small worlds: what the properties promise follows from the rules *)
(* that traces are checked against. h is what an observer wrote down.         *)
EXTENDS Naming

CONSTANT Deep

VARIABLES s, b, h     \* b: what the environment may still do
vars == <<s, b, h>>

\* Bodies are kept as values here, not as bytes: CodecMC is about the bytes
SymEnc(ty, v) == [ty |-> ty, v |-> v]
SymDecX(ty, x, p, lax) == IF x.ty = ty THEN Ok(x.v, 0) ELSE Rej
SymDecAll(ty, x) == SymDecX(ty, x, 1, TRUE)
Raw == [ty |-> T("raw"), v |-> <<>>]

\* ------------------------------------------------------------ contents
Gw(t) == << <<>>, <<Zeros(16), Zeros(8)>>, <<t>> >>
Apps(t) == << <<Zero(UriT), <<t>>, <<>>, Zeros(8), Zeros(8), <<>>>> >>
Note(t) == [Zero(NoteT) EXCEPT ![1][2] = LE(t, 8)]
Me == <<77>>
Connect == Enc(ConnectT, <<Me, Zero(GenT), <<>>, <<>>>>)
Register(fid, a, flags) == Enc(RegisterT, <<Me, <<<<LE(fid, 8), a, <<LE(flags, 8)>>>>>>>>)
Query(a) == Enc(QueryT, << << << << <<QueryKey>>, a >> >> >>, QueryName >>)

Msg(act, rel, body, hdr, err) == [act |-> act, rel |-> rel, body |-> body, hdr |-> hdr, err |-> err, exp |-> TRUE, actor |-> Gateway]
Reply(act, id, rel, err, body) == [k |-> "msg", act |-> act, id |-> id, rel |-> rel, err |-> err, body |-> body]

\* good and bad answers to a request, by what was asked
Good(q, t) ==
  CASE q = "ping" -> <<"PingRequest", Enc(PingReplyT, <<Gw(t)>>)>>
    [] q = "app" -> <<"QueryReply", Enc(AppReplyT, <<Zeros(8), <<<<Apps(t)>>>>, Zeros(8)>>)>>
    [] OTHER -> <<"x", Raw>>
Answers(q, t) ==
  { <<TRUE, Good(q, t)[1], 0, Good(q, t)[2]>>, <<FALSE, Good(q, t)[1], 1, Good(q, t)[2]>>, <<FALSE, "ClientOperationFailure", 0, Enc(CodeT, <<LE(t, 8)>>)>> }
  \cup (IF q = "ping" THEN { <<FALSE, "Foo", 0, Good(q, t)[2]>>, <<FALSE, "PingRequest", 0, Raw>> } ELSE {})
  \cup (IF q = "app" THEN { <<FALSE, "QueryReply", 0, Enc(AppReplyT, <<Zeros(8), <<>>, Zeros(8)>>)>>,
                            <<FALSE, "QueryReply", 0, Enc(AppReplyT, <<Zeros(8), <<<<Apps(t)>>>>, LE(t, 8)>>)>> } ELSE {})

\* ------------------------------------------------------------ environment
Budget(pi, ap, re, rp, no, bn, ca, cl, ga) ==
  [ping |-> pi, app |-> ap, reg |-> re, rep |-> rp, note |-> no, bad |-> bn, cancel |-> ca, close |-> cl, gate |-> ga, op |-> 0, id |-> 0]

Worlds ==
  IF ~Deep THEN { Budget(1, 0, 1, 2, 0, 0, 1, 0, 0), Budget(1, 1, 0, 2, 1, 0, 0, 0, 0), Budget(0, 0, 2, 3, 0, 0, 0, 0, 0), Budget(1, 0, 0, 1, 2, 1, 0, 1, 0), Budget(0, 0, 1, 1, 1, 0, 0, 0, 1) }
  ELSE { Budget(2, 0, 1, 3, 0, 0, 1, 0, 0), Budget(1, 1, 0, 3, 1, 1, 1, 0, 0), Budget(0, 0, 2, 4, 0, 0, 1, 1, 0), Budget(1, 0, 0, 2, 2, 1, 0, 1, 1), Budget(1, 0, 1, 3, 1, 0, 0, 0, 1) }

Begin(k, a) == [e |-> "callb", r |-> b.op + 1, k |-> k, a |-> a, px |-> FALSE, po |-> TRUE]

\* requests on the wire: id -> what was asked
Asked == h.asked

EnvEvents ==
  (IF b.ping > 0 THEN { <<Begin("ping", <<>>), [b EXCEPT !.ping = @ - 1, !.op = @ + 1]>> } ELSE {})
  \cup (IF b.app > 0 THEN { <<Begin("app", <<65>>), [b EXCEPT !.app = @ - 1, !.op = @ + 1]>> } ELSE {})
  \cup (IF b.reg > 0 THEN { <<Begin("reg", Zero(UriT)), [b EXCEPT !.reg = @ - 1, !.op = @ + 1]>> } ELSE {})
  \cup (IF b.rep > 0 THEN { <<[e |-> "feed", m |-> Reply(x[2], 100 + b.id, i, x[3], x[4]), good |-> x[1], to |-> i, t |-> b.id + 1],
                             [b EXCEPT !.rep = @ - 1, !.id = @ + 1]>> : <<i, x>> \in UNION { { <<j, y>> : y \in Answers(Asked[j], b.id + 1) } : j \in DOMAIN Asked } } ELSE {})
  \cup (IF b.note > 0 THEN { <<[e |-> "feed", m |-> Reply("ServiceNotificationRequest", 100 + b.id, 0, 0, Enc(NoteBodyT, <<<<Note(b.id + 1)>>>>)), good |-> TRUE, to |-> 0, t |-> b.id + 1],
                              [b EXCEPT !.note = @ - 1, !.id = @ + 1]>> } ELSE {})
  \cup (IF b.bad > 0 THEN { <<[e |-> "feed", m |-> Reply("ServiceNotificationRequest", 100 + b.id, 0, 0, x), good |-> FALSE, to |-> 0, t |-> b.id + 1],
                              [b EXCEPT !.bad = @ - 1, !.id = @ + 1]>> : x \in { Enc(NoteBodyT, <<<<>>>>), Raw } } ELSE {})
  \cup (IF b.cancel > 0 THEN { <<[e |-> "cancel", r |-> r], [b EXCEPT !.cancel = @ - 1]>> : r \in DOMAIN s.ops } ELSE {})
  \cup (IF b.close > 0 THEN { <<[e |-> "closeb"], [b EXCEPT !.close = @ - 1]>> } ELSE {})
  \cup (IF b.gate > 0 /\ ~s.gated THEN { <<[e |-> "gate"], b>> } ELSE {})
  \cup (IF b.gate > 0 /\ s.gated THEN { <<[e |-> "ungate"], [b EXCEPT !.gate = @ - 1]>> } ELSE {})

\* ------------------------------------------------------------ the client
NextId == 1 + Cardinality(s.used)
Wr(m) == [e |-> "wr", m |-> m @@ [id |-> NextId]]

Cands ==
  { [e |-> "closee"], [e |-> "cc"] }
  \cup UNION { LET op == s.ops[r] IN
       { [e |-> "calle", r |-> r, o |-> "ok", v |-> IF op.rep = <<>> THEN <<>> ELSE op.rep[1].v],
         [e |-> "calle", r |-> r, o |-> "err", v |-> <<>>], [e |-> "calle", r |-> r, o |-> "ctx", v |-> <<>>] }
       \cup (IF op.st # "new" THEN {} ELSE
             CASE op.k = "ping" -> { Wr(Msg("PingRequest", 0, Raw, Raw, 0)) }
               [] op.k = "app" -> { Wr(Msg("QueryRequest", 0, Query(op.a), Raw, 0)) }
               [] OTHER -> { Wr(Msg("NotificationClientConnectionRequest", 0, Connect, Raw, 0)) }
                           \cup (IF ConnsIn(s, "ok") = {} THEN {} ELSE
                                 { Wr(Msg("RegisterServiceNotificationFilterRequest", 0, Register(fid, op.a, 2), Enc(IdentityT, <<<<>>, Me>>), 0)) : fid \in 1..2 })) : r \in DOMAIN s.ops }
  \cup { Wr(Msg("ServiceNotificationReply", s.acks[i], Enc(CodeT, <<Zeros(8)>>), Raw, 0)) : i \in 1..Len(s.acks) }
  \cup { [e |-> "note", v |-> s.dlv[i]] : i \in 1..Len(s.dlv) }

Shows(e) ==
  /\ e.e = "wr" => ~s.gated
  /\ e.e = "closee" => h.closers > 0
  /\ e.e = "cc" => ~s.cc
\* <<event, state>>
Out == UNION { { <<e, y>> : y \in { x \in Ev(s, e) : Served(x) } } : e \in { c \in Cands : Shows(c) } }

H0 == [ asked |-> EmptyF,    \* requests on the wire: id -> what was asked
        good |-> EmptyF,     \* good answers: value -> id of the request
        answered |-> {},     \* requests that were answered well
        results |-> EmptyF,  \* values returned: value -> how often
        notes |-> {}, acks |-> EmptyF, delivered |-> EmptyF, stray |-> FALSE,
        fids |-> <<>>, returned |-> <<>>, early |-> FALSE, wrong |-> FALSE, oks |-> 0, closers |-> 0 ]

Count(f, k) == Upd(f, k, IF k \in DOMAIN f THEN f[k] + 1 ELSE 1)
What(m) == CASE m.act = "PingRequest" -> "ping" [] m.act = "QueryRequest" -> "app" [] m.act = "NotificationClientConnectionRequest" -> "conn"
             [] m.act = "RegisterServiceNotificationFilterRequest" -> "reg" [] OTHER -> "ack"
Value(q, t) == CASE q = "ping" -> <<Gw(t)>> [] q = "app" -> <<Apps(t)>> [] OTHER -> <<q, t>>

See(e) ==
  CASE e.e = "feed" /\ e.to # 0 ->
         IF ~e.good THEN h
         ELSE [h EXCEPT !.good = Upd(@, e.t, e.to), !.answered = @ \cup {e.to}]
    [] e.e = "feed" /\ e.to = 0 -> IF e.good THEN [h EXCEPT !.notes = @ \cup {e.t}] ELSE h
    [] e.e = "wr" ->
         LET q == What(e.m) IN
         IF q = "ack" THEN [h EXCEPT !.acks = Count(@, e.m.rel - 99)]
         ELSE [h EXCEPT !.asked = Upd(@, e.m.id, q),
                        !.fids = IF q = "reg" THEN Append(@, Asks(e.m).fid) ELSE @,
                        !.early = @ \/ (q = "reg" /\ Cardinality({ i \in h.answered : i \in DOMAIN h.asked /\ h.asked[i] = "conn" })
                                                     <= Cardinality({ i \in DOMAIN h.asked : h.asked[i] = "reg" }))]
    [] e.e = "note" -> [h EXCEPT !.delivered = Count(@, NatOf(e.v[1][2]))]
    [] e.e = "calle" /\ e.o = "ok" ->
         LET op == s.ops[e.r] IN
         IF op.k = "reg"
         THEN [h EXCEPT !.returned = Append(@, e.v), !.wrong = @ \/ op.id \notin h.answered]
         ELSE [h EXCEPT !.wrong = @ \/ ~\E t \in DOMAIN h.good : h.good[t] = op.id /\ e.v = Value(op.k, t)[1],
                        !.results = Count(@, e.v)]
    [] e.e = "closeb" -> [h EXCEPT !.closers = @ + 1]
    [] e.e = "closee" -> [h EXCEPT !.closers = @ - 1]
    [] OTHER -> h

Init == s = Init0 /\ b \in Worlds /\ h = H0
Internal == \E y \in Step(s) : s' = y /\ UNCHANGED <<b, h>>
Shown == \E p \in Out : s' = p[2] /\ h' = See(p[1]) /\ UNCHANGED b
Sys == Internal \/ Shown
Env == \E p \in EnvEvents : b' = p[2] /\ s' \in Ev(s, p[1]) /\ h' = See(p[1])
Next == Sys \/ Env
Spec == Init /\ [][Next]_vars /\ WF_vars(Sys)

AtMostOnce(f) == \A k \in DOMAIN f : f[k] <= 1

N01 == ~h.wrong
N02 == AtMostOnce(h.acks) /\ AtMostOnce(h.delivered) /\ DOMAIN h.acks \subseteq h.notes /\ DOMAIN h.delivered \subseteq h.notes
N03 == /\ \A i, j \in 1..Len(h.fids) : i < j => h.fids[i] # h.fids[j]
       /\ \A i \in 1..Len(h.returned) : \E j \in 1..Len(h.fids) : h.fids[j] = h.returned[i]
       /\ \A i, j \in 1..Len(h.returned) : i < j => h.returned[i] # h.returned[j]
       /\ ~h.early
\* when nothing can happen any more, nothing is owed
Rest == Step(s) = {} /\ Out = {} => Quiet(s)
Settles == <>[](Step(s) = {} /\ Out = {})
=============================================================================

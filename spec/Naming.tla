------------------------------- MODULE Naming -------------------------------
(* The naming client on one connection to a gateway: its calls, the           *)
(* notifications it gets, and what it has to make of every reply.             *)
(*                                                                            *)
(* As in Conn: Ev(s, e) are the states after the visible event e, Step(s)     *)
(* those after one internal step, Quiet(s): nothing is left to do.            *)
EXTENDS Codec

\* Upd and Del as in Conn
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
EmptyF == [x \in {} |-> 0]

T(k) == [k |-> k]
Struct(ts) == [k |-> "struct", f |-> [i \in 1..Len(ts) |-> [t |-> ts[i], emb |-> FALSE]]]
Ptr(t) == [k |-> "ptr", e |-> t]
Slice(t) == [k |-> "slice", e |-> t]
MapOf(a, t) == [k |-> "map", key |-> a, e |-> t]

str == T("str")
i64 == T("i64")
u64 == T("u64")

UriT == Struct(<<i64, str, str, i64, str, T("i32"), str, str, str, Slice(str)>>)
GatewayT == Struct(<<str, Struct(<<T("nid"), u64>>), str>>)
PingReplyT == Struct(<<GatewayT>>)
AppT == Struct(<<UriT, str, str, i64, i64, MapOf(str, str)>>)
AppListT == Slice(AppT)
AppReplyT == Struct(<<T("i32"), Ptr(Struct(<<AppListT>>)), T("i32")>>)
QueryT == Struct(<<Struct(<<MapOf(Struct(<<str>>), str)>>), str>>)
GenT == Struct(<<i64, T("nid")>>)
VersionsT == Ptr(Struct(<<Slice(Struct(<<i64, i64>>))>>))
FilterT == Struct(<<u64, UriT, Struct(<<T("u32")>>)>>)
ConnectT == Struct(<<str, GenT, VersionsT, Slice(Ptr(FilterT))>>)
RegisterT == Struct(<<str, Ptr(FilterT)>>)
ReplicasT == Struct(<<T("bool"), T("bool"), str, Slice(str), i64, T("bool"), Slice(str)>>)
EntryT == Struct(<<Struct(<<T("guid")>>), str, ReplicasT, T("bool")>>)
NoteT == Struct(<<Struct(<<Struct(<<T("guid"), T("u32")>>), u64>>), GenT, VersionsT, Slice(Ptr(Struct(<<Ptr(EntryT), T("bool")>>)))>>)
NoteBodyT == Struct(<<Ptr(NoteT)>>)
CodeT == Struct(<<i64>>)
IdentityT == Struct(<<str, str>>)

\* an ASCII string as UTF-16 units, for the names the protocol fixes
QueryName == <<71,101,116,65,112,112,108,105,99,97,116,105,111,110,76,105,115,116>>   \* GetApplicationList
QueryKey == <<65,112,112,108,105,99,97,116,105,111,110,78,97,109,101>>                \* ApplicationName

Gateway == 5   \* actor

\* ------------------------------------------------------ meaning of messages
\* a reader of ours sees newer bodies without their new fields
Read(ty, b) == DecX(ty, b, 1, TRUE)

\* what a call has to make of a reply: val (this value), err, any
Val(x) == [k |-> "val", v |-> x]
Bad == [k |-> "err", v |-> <<>>]
Open == [k |-> "any", v |-> <<>>]

Failure(m) == m.err # 0 \/ m.act = "ClientOperationFailure"

Judge(op, m) ==
  IF Failure(m) THEN Bad
  ELSE CASE op.k = "ping" ->
              IF m.act # "PingRequest" THEN Bad
              ELSE LET d == Read(PingReplyT, m.body) IN
                   CASE d.k = "ok" -> Val(d.v[1]) [] d.k = "free" -> Open [] OTHER -> Bad
         [] op.k = "app" ->
              LET d == Read(AppReplyT, m.body) IN
              CASE d.k = "ok" -> IF ~IsZeroBytes(d.v[3]) \/ d.v[2] = <<>> THEN Bad ELSE Val(d.v[2][1][1])
                [] d.k = "free" -> Open
                [] OTHER -> Bad
         [] op.k = "conn" -> Val(<<>>)
         [] op.k = "reg" -> Val(op.fid)

ValT(op) == CASE op.k = "ping" -> GatewayT [] op.k = "app" -> AppListT [] OTHER -> u64

\* a notification: val (content), no, any
NoteOf(m) ==
  IF m.act # "ServiceNotificationRequest" THEN Bad
  ELSE LET d == Read(NoteBodyT, m.body) IN
       CASE d.k = "ok" -> IF d.v[1] = <<>> THEN Bad ELSE Val(Norm(NoteT, d.v[1][1]))
         [] d.k = "free" -> Open
         [] OTHER -> Bad

\* what a request says, as far as it is one
Asks(m) ==
  CASE m.act = "PingRequest" -> [k |-> "ping"]
    [] m.act = "QueryRequest" ->
         LET d == DecAll(QueryT, m.body) IN
         IF d.k = "ok" /\ d.v[2] = QueryName
         THEN [k |-> "app", a |-> { d.v[1][1][i][2] : i \in { j \in 1..Len(d.v[1][1]) : d.v[1][1][j][1][1] = QueryKey } }]
         ELSE [k |-> "junk"]
    [] m.act = "NotificationClientConnectionRequest" ->
         LET d == DecAll(ConnectT, m.body) IN
         IF d.k = "ok" /\ d.v[1] # <<>> THEN [k |-> "conn", cid |-> d.v[1]] ELSE [k |-> "junk"]
    [] m.act = "RegisterServiceNotificationFilterRequest" ->
         LET d == DecAll(RegisterT, m.body)
             h == DecAll(IdentityT, m.hdr)
         IN IF d.k = "ok" /\ d.v[1] # <<>> /\ d.v[2] # <<>> /\ h.k = "ok" /\ h.v[2] = d.v[1]
            THEN [k |-> "reg", cid |-> d.v[1], fid |-> d.v[2][1][1], a |-> d.v[2][1][2], flags |-> d.v[2][1][3][1]] ELSE [k |-> "junk"]
    [] m.act = "ServiceNotificationReply" ->
         LET d == DecAll(CodeT, m.body) IN
         IF m.err = 0 /\ d.k = "ok" /\ IsZeroBytes(d.v[1]) THEN [k |-> "ack"] ELSE [k |-> "junk"]
    [] OTHER -> [k |-> "junk"]

\* is this the request of the call
Of(s, op, q) ==
  CASE q.k = "ping" -> op.k = "ping" /\ op.st = "new"
    [] q.k = "app" -> op.k = "app" /\ op.st = "new" /\ op.a \in q.a
    [] q.k = "reg" -> op.k = "reg" /\ op.st = "new" /\ op.a = q.a /\ q.cid = s.cid /\ q.fid \notin s.fids
                      /\ q.flags = LE((IF op.px THEN 1 ELSE 0) + (IF op.po THEN 2 ELSE 0), 8)
    [] OTHER -> FALSE

\* ---------------------------------------------------------------- states
Init0 ==
  [ rx |-> <<>>, lp |-> TRUE, closing |-> FALSE, closed |-> FALSE, cc |-> FALSE, werr |-> FALSE, gated |-> FALSE,
    ops |-> EmptyF,       \* calls
    used |-> {},          \* identities written
    fids |-> {},          \* filter ids written
    cid |-> <<>>,         \* the client's identity, once known
    conns |-> EmptyF,     \* announcements of the client: sent, ok, bad. Any registration may have written any of them
    conned |-> 0, begun |-> 0,   \* how many were written, how many registrations began
    gone |-> 0,           \* registrations that ended on their own, less the announcements known to be theirs
    acks |-> <<>>,        \* notifications to acknowledge: their ids
    macks |-> <<>>,       \* those that may be acknowledged
    dlv |-> <<>>,         \* contents to hand over
    may |-> 0,            \* how many of which we do not know may be handed over
    blocked |-> FALSE ]   \* the application's handlers do not return

MayFail(s) == s.closing \/ s.closed \/ s.werr
CanWrite(s) == ~s.gated \/ s.cc
Cut(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

Waiting(s, id) == { r \in DOMAIN s.ops : s.ops[r].tab /\ s.ops[r].id = id }
Regs(s) == { r \in DOMAIN s.ops : s.ops[r].k = "reg" /\ s.ops[r].st = "new" }
ConnsIn(s, st) == { i \in DOMAIN s.conns : s.conns[i] = st }

\* a call that is cancelled or bound to fail may have stopped waiting
Left(s, r) == s.ops[r].cx \/ MayFail(s)

\* every registration that was not given up has an announcement left, or is to write it
Served(s) == Cardinality({ r \in Regs(s) : ~Left(s, r) })
             <= Cardinality({ i \in DOMAIN s.conns : s.conns[i] # "lost" }) + s.begun - s.conned

\* a message comes in with what it would mean to the call it answers, and as
\* a notification
Heard(s, m) ==
  IF m.k = "eof" THEN m
  ELSE LET rs == { r \in DOMAIN s.ops : m.rel # 0 /\ s.ops[r].id = m.rel }
       IN [k |-> "msg", id |-> m.id, rel |-> m.rel, n |-> NoteOf(m),
           j |-> IF rs # {} THEN Judge(s.ops[CHOOSE r \in rs : TRUE], m)
                 ELSE IF m.rel \in DOMAIN s.conns THEN Judge([k |-> "conn"], m) ELSE Bad]

Process(s) ==
  IF ~s.lp \/ s.rx = <<>> THEN {}
  ELSE LET m == Head(s.rx)
           t == [s EXCEPT !.rx = Tail(@)]
           ws == Waiting(s, m.rel)
           conn == m.rel \in ConnsIn(s, "sent")
           nobody == CASE m.n.k = "val" -> [t EXCEPT !.acks = Append(@, m.id), !.dlv = Append(@, m.n.v)]
                       [] m.n.k = "any" -> [t EXCEPT !.macks = Append(@, m.id), !.may = @ + 1]
                       [] OTHER -> t
       IN IF m.k = "eof" THEN { [t EXCEPT !.lp = FALSE, !.closed = TRUE] }
          ELSE IF m.rel # 0 /\ conn
          THEN { [t EXCEPT !.conns[m.rel] = IF m.j.k = "val" THEN "ok" ELSE "bad"] }
               \cup (IF MayFail(s) \/ s.gone + Cardinality({ r \in Regs(s) : s.ops[r].cx }) > 0
                     THEN { [nobody EXCEPT !.conns[m.rel] = "lost", !.gone = @ - 1] } ELSE {})
          ELSE IF m.rel # 0 /\ ws # {}
          THEN { [t EXCEPT !.ops[r].tab = FALSE, !.ops[r].rep = <<m.j>>] : r \in ws }
               \cup (IF \A r \in ws : Left(s, r)
                     THEN { [nobody EXCEPT !.ops = [r \in DOMAIN @ |-> IF r \in ws THEN [@[r] EXCEPT !.tab = FALSE] ELSE @[r]]] } ELSE {})
          ELSE { nobody }

Step(s) ==
  Process(s)
  \cup (IF s.closing /\ ~s.closed THEN { [s EXCEPT !.closed = TRUE] } ELSE {})
  \cup (IF s.closed /\ s.lp THEN { [s EXCEPT !.lp = FALSE] } ELSE {})

Write(s, m) ==
  IF s.cc \/ m.actor # Gateway \/ m.id = 0 \/ m.id \in s.used THEN {}
  ELSE LET t == [s EXCEPT !.used = @ \cup {m.id}]
           q == Asks(m)
       IN CASE q.k = "junk" -> {}
            [] q.k = "ack" ->
                 { [t EXCEPT !.acks = Cut(@, i)] : i \in { x \in 1..Len(s.acks) : s.acks[x] = m.rel } }
                 \cup { [t EXCEPT !.macks = Cut(@, i)] : i \in { x \in 1..Len(s.macks) : s.macks[x] = m.rel } }
            [] q.k = "conn" ->
                 IF m.exp /\ m.rel = 0 /\ s.cid \in {<<>>, q.cid} /\ s.conned < s.begun
                 THEN { [t EXCEPT !.conns = Upd(@, m.id, "sent"), !.conned = @ + 1, !.cid = q.cid] } ELSE {}
            [] q.k = "reg" /\ ConnsIn(s, "ok") = {} -> {}
            [] OTHER ->
                 { LET u == [t EXCEPT !.ops[r].id = m.id, !.ops[r].tab = TRUE, !.ops[r].st = "sent"]
                   IN IF q.k = "reg" THEN [u EXCEPT !.ops[r].fid = q.fid, !.fids = @ \cup {q.fid}, !.conns = Del(@, CHOOSE i \in ConnsIn(s, "ok") : TRUE)]
                      ELSE u
                   : r \in { x \in DOMAIN s.ops : m.exp /\ m.rel = 0 /\ Of(s, s.ops[x], q) } }

EndOk(op, e) ==
  /\ op.rep # <<>>
  /\ \/ op.rep[1].k = "any"
     \/ op.rep[1].k = "val" /\ Same(ValT(op), op.rep[1].v, e.v)

\* a call ends without a result
EndErr(s, r, e) ==
  LET op == s.ops[r]
      t == [s EXCEPT !.ops = Del(@, r)]
      u == IF r \in Regs(s) THEN [t EXCEPT !.gone = @ + 1] ELSE t
  IN CASE e.o = "ctx" -> IF op.cx THEN { u } ELSE {}
       [] e.o = "err" ->
            (IF MayFail(s) \/ (op.rep # <<>> /\ op.rep[1].k \in {"err", "any"}) THEN { u } ELSE {})
            \cup (IF r \in Regs(s) /\ ConnsIn(s, "bad") # {} THEN { [t EXCEPT !.conns = Del(@, CHOOSE i \in ConnsIn(s, "bad") : TRUE)] } ELSE {})
       [] OTHER -> {}

Ev(s, e) ==
  CASE e.e = "feed" -> { [s EXCEPT !.rx = Append(@, Heard(s, e.m))] }
    [] e.e = "callb" -> { [s EXCEPT !.ops = Upd(@, e.r, [k |-> e.k, a |-> e.a, px |-> e.px, po |-> e.po, st |-> "new", id |-> 0, tab |-> FALSE,
                                                         rep |-> <<>>, cx |-> FALSE, fid |-> <<>>]), !.begun = IF e.k = "reg" THEN @ + 1 ELSE @] }
    [] e.e = "wr" -> Write(s, e.m)
    [] e.e = "note" ->
         LET v == Norm(NoteT, e.v) IN
         { [s EXCEPT !.dlv = Cut(@, i)] : i \in { x \in 1..Len(s.dlv) : s.dlv[x] = v } }
         \cup (IF s.may > 0 THEN { [s EXCEPT !.may = @ - 1] } ELSE {})
    [] e.e = "calle" ->
         IF e.o = "ok" THEN IF EndOk(s.ops[e.r], e) THEN { [s EXCEPT !.ops = Del(@, e.r)] } ELSE {}
         ELSE EndErr(s, e.r, e)
    [] e.e = "cancel" -> IF e.r \in DOMAIN s.ops THEN { [s EXCEPT !.ops[e.r].cx = TRUE] } ELSE { s }
    [] e.e = "closeb" -> { [s EXCEPT !.closing = TRUE] }
    [] e.e = "closee" -> IF s.closed THEN { s } ELSE {}
    [] e.e = "cc" -> IF s.closed \/ s.closing THEN { [s EXCEPT !.cc = TRUE] } ELSE {}
    [] e.e = "gate" -> { [s EXCEPT !.gated = TRUE] }
    [] e.e = "ungate" -> { [s EXCEPT !.gated = FALSE] }
    [] e.e = "werr" -> { [s EXCEPT !.werr = TRUE] }
    [] e.e = "block" -> { [s EXCEPT !.blocked = TRUE] }
    [] e.e = "unblock" -> { [s EXCEPT !.blocked = FALSE] }
    [] e.e = "end" -> IF e.leak = 0 THEN { s } ELSE {}
    [] OTHER -> {}

Quiet(s) ==
  /\ s.closing => s.closed
  /\ s.closed => s.cc
  /\ s.lp /\ CanWrite(s) => s.rx = <<>> /\ ~s.closed
  /\ s.acks # <<>> => ~CanWrite(s) \/ MayFail(s)
  /\ s.dlv # <<>> => s.blocked \/ ~CanWrite(s)
  /\ CanWrite(s) => Cardinality(Regs(s)) <= Cardinality(ConnsIn(s, "sent"))
  /\ \A r \in DOMAIN s.ops :
       LET x == s.ops[r] IN
       /\ x.st = "new" => ~CanWrite(s) \/ x.k = "reg"
       /\ CanWrite(s) => x.rep = <<>> /\ ~x.cx /\ ~s.closed

RECURSIVE Closure(_, _)
Closure(done, new) ==
  IF new = {} THEN done
  ELSE LET d == done \cup new IN Closure(d, UNION { Step(s) : s \in new } \ d)

After(S, e) ==
  IF e.e = "q" THEN { s \in Closure({}, S) : Quiet(s) }
  ELSE { t \in UNION { Ev(s, e) : s \in Closure({}, S) } : Served(t) }
=============================================================================

------------------------------- MODULE ConnMC -------------------------------
(* Conn itself, in small worlds: the properties follow from the rules that   *)
(* traces are checked against. h is what an observer wrote down.              *)
EXTENDS ConnEnv

CONSTANT Deep

VARIABLES s, v, h

vars == <<s, v, h>>

FreshId(x) == 1 + Cardinality(x.used)
FreshTick(w) == 1 + Cardinality(w.ticks)

\* everything a connection could show next
Cands(x, w) ==
  { [e |-> "dl", tag |-> x.cur], [e |-> "dle"], [e |-> "closee"], [e |-> "cc"],
    [e |-> "we", o |-> "err", t |-> 0], [e |-> "we", o |-> "rej", t |-> x.why] }
  \cup UNION { { [e |-> "wr", k |-> "msg", id |-> IF x.rq[r].own = 0 THEN FreshId(x) ELSE x.rq[r].own, tag |-> x.rq[r].tag, tick |-> 0],
                 [e |-> "rre", r |-> r, o |-> "reply", t |-> x.rq[r].rep], [e |-> "rre", r |-> r, o |-> "ctx", t |-> 0],
                 [e |-> "rre", r |-> r, o |-> "err", t |-> 0], [e |-> "rre", r |-> r, o |-> "rej", t |-> x.rej] } : r \in DOMAIN x.rq }
  \cup UNION { { [e |-> "wr", k |-> "msg", id |-> IF x.sd[r].own = 0 THEN FreshId(x) ELSE x.sd[r].own, tag |-> x.sd[r].tag, tick |-> 0],
                 [e |-> "sende", r |-> r, o |-> "ok", t |-> 0],
                 [e |-> "sende", r |-> r, o |-> "err", t |-> 0], [e |-> "sende", r |-> r, o |-> "rej", t |-> x.rej] } : r \in DOMAIN x.sd }
  \cup UNION { { [e |-> "wr", k |-> "hbq", id |-> FreshId(x), tag |-> 0, tick |-> FreshTick(w)],
                 [e |-> "pinge", r |-> r, o |-> "ok", t |-> 0], [e |-> "pinge", r |-> r, o |-> "ctx", t |-> 0],
                 [e |-> "pinge", r |-> r, o |-> "err", t |-> 0], [e |-> "pinge", r |-> r, o |-> "rej", t |-> x.rej] } : r \in DOMAIN x.pg }
  \cup { [e |-> "wr", k |-> "hbr", id |-> FreshId(x), tag |-> t, tick |-> 0] : t \in DOMAIN x.hb }

\* can come to something: a closed connection writes no more, a gated one later
Ok(x, e, cl) ==
  /\ e.e = "wr" => ~x.gated
  /\ e.e \in {"we", "rre", "sende", "pinge"} /\ e.o = "rej" => x.rej # 0
  /\ e.e = "closee" => cl > 0
  /\ e.e = "cc" => ~x.cc
  /\ e.e = "dle" => x.lp = "in"

Out(x, w, cl) == UNION { { <<e, y>> : y \in Ev(x, e) } : e \in { c \in Cands(x, w) : Ok(x, c, cl) } }

H0 == [ fed |-> EmptyF,      \* messages the peer sent: tag -> what it relates to
        took |-> EmptyF,     \* messages consumed: tag -> how often
        cbs |-> <<>>,        \* callbacks, in order
        id |-> EmptyF,       \* operation -> identity on the wire
        ids |-> <<>>,        \* all identities on the wire
        wrong |-> FALSE,     \* a request got a message that does not relate to it
        asked |-> EmptyF, answered |-> EmptyF,
        pongs |-> {}, tick |-> EmptyF, npong |-> 0, badping |-> FALSE,
        over |-> FALSE,      \* the receive loop reported a rejection
        late |-> {},         \* operations begun after that
        latewr |-> FALSE, ccwr |-> FALSE, wrote |-> EmptyF, sends |-> {}, okunsent |-> FALSE,
        closers |-> 0 ]

Count(f, k) == Upd(f, k, IF k \in DOMAIN f THEN f[k] + 1 ELSE 1)

See(e) ==
  CASE e.e = "feed" ->
         (CASE e.m.k = "msg" -> [h EXCEPT !.fed = Upd(@, e.m.tag, e.m.rel)]
            [] e.m.k = "hbq" -> [h EXCEPT !.asked = Count(@, e.m.tag)]
            [] e.m.k = "hbr" -> [h EXCEPT !.pongs = @ \cup {e.m.tick}]
            [] OTHER -> h)
    [] e.e = "wr" ->
         LET a == [h EXCEPT !.ids = Append(@, e.id), !.ccwr = @ \/ s.cc]
         IN (CASE e.k = "msg" -> [a EXCEPT !.id = Upd(@, e.tag, e.id), !.latewr = @ \/ e.tag \in h.late, !.wrote = Count(@, e.tag)]
               [] e.k = "hbq" -> [a EXCEPT !.npong = @ + 1, !.latewr = @ \/ \E p \in h.late : p \in DOMAIN s.pg /\ s.pg[p].st = "new" /\ \A q \in DOMAIN s.pg : s.pg[q].st = "new" => q \in h.late]
               [] e.k = "hbr" -> [a EXCEPT !.answered = Count(@, e.tag)]
               [] OTHER -> a)
    [] e.e = "dl" -> [h EXCEPT !.took = Count(@, e.tag), !.cbs = Append(@, e.tag)]
    [] e.e \in {"rrb", "sendb", "pingb"} -> IF h.over THEN [h EXCEPT !.late = @ \cup {e.r}] ELSE h
    [] e.e = "rre" /\ e.o = "reply" ->
         [h EXCEPT !.took = Count(@, e.t), !.wrong = @ \/ e.r \notin DOMAIN h.id \/ h.fed[e.t] # h.id[e.r]]
    [] e.e = "sende" /\ e.o = "ok" -> [h EXCEPT !.okunsent = @ \/ e.r \notin DOMAIN h.wrote]
    [] e.e = "pinge" /\ e.o = "ok" -> [h EXCEPT !.badping = @ \/ s.pg[e.r].tick \notin h.pongs]
    [] e.e = "closeb" -> [h EXCEPT !.closers = @ + 1]
    [] e.e = "closee" -> [h EXCEPT !.closers = @ - 1]
    [] e.e = "we" -> [h EXCEPT !.over = e.o = "rej"]
    [] OTHER -> h

Init == s = Init0 /\ v \in { EnvInit(b) : b \in Worlds(P, Deep) } /\ h = H0
Internal == \E y \in Step(s) : s' = y /\ UNCHANGED <<v, h>>
Shown == \E p \in Out(s, v, h.closers) : s' = p[2] /\ v' = Learn(v, p[1]) /\ h' = See(p[1])
Sys == Internal \/ Shown
Env == \E p \in EnvEvents(v) : v' = p[2] /\ s' \in Ev(s, p[1]) /\ h' = See(p[1])
Next == Sys \/ Env
Spec == Init /\ [][Next]_vars /\ WF_vars(Sys)

\* ---------------------------------------------------------- the properties
AtMostOnce(f) == \A k \in DOMAIN f : f[k] <= 1

T02 == AtMostOnce(h.wrote) /\ ~h.okunsent
T06 == AtMostOnce(h.took) /\ ~h.wrong /\ \A a, b \in 1..Len(h.cbs) : a < b => h.cbs[a] < h.cbs[b]
T08 == \A a, b \in 1..Len(h.ids) : a < b => h.ids[a] # h.ids[b] /\ h.ids[a] # 0
T09 == AtMostOnce(h.answered) /\ DOMAIN h.answered \subseteq DOMAIN h.asked /\ ~h.badping
T10 == ~h.latewr /\ ~h.ccwr
\* T07, and the other promises that something happens: what is left when
\* nothing more happens is exactly what may be left
Rest == Step(s) = {} /\ Out(s, v, h.closers) = {} => Quiet(s)
Settles == <>[](Step(s) = {} /\ Out(s, v, h.closers) = {})
=============================================================================

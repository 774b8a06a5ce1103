------------------------------- MODULE PipeMC -------------------------------
(* One piped connection in small worlds: both ends with scripts of their own, *)
(* a filter that drops message 2 and rewrites message 3, an upstream that is  *)
(* found or not. h is what an observer wrote down.                            *)
EXTENDS Pipe

CONSTANT Deep

VARIABLES s, env, h
Rng(q) == { q[i] : i \in DOMAIN q }
vars == <<s, env, h>>

Cfg == [chc |-> TRUE, cbc |-> FALSE, ghc |-> TRUE, gbc |-> FALSE]
Val(n) == [h |-> n, b |-> n]
Msg(n) == [e |-> "feed", m |-> [k |-> "msg", hc |-> TRUE, bc |-> TRUE, m |-> Val(n)]]
Crc(n) == [e |-> "feed", m |-> [k |-> "msg", hc |-> FALSE, bc |-> TRUE, m |-> Val(n)]]
Bad == [e |-> "feed", m |-> [k |-> "bad"]]
Eof == [e |-> "feed", m |-> [k |-> "eof"]]
Gate == [e |-> "gate"]
Ungate == [e |-> "ungate"]
Werr == [e |-> "werr"]
Hs == [e |-> "hs"]

ScriptsD == { <<Msg(1), Msg(2), Msg(3)>>, <<Msg(2), Msg(3)>>, <<Msg(1), Eof>>, <<Bad>>, <<Crc(1), Msg(3)>>, <<Msg(3), Gate, Msg(1)>>, <<Msg(1), Werr>>, <<Eof>> }
            \cup (IF Deep THEN { <<Msg(1), Msg(3), Crc(1)>>, <<Msg(1), Gate, Msg(3), Ungate, Msg(1)>>, <<Gate, Msg(3), Eof>> } ELSE {})
ScriptsU == { <<>>, <<Msg(11), Msg(3)>>, <<Msg(11), Eof>>, <<Werr, Msg(11)>>, <<Gate, Msg(11), Ungate>>, <<Msg(2), Crc(12)>> }
Up(o, tls, good) == [e |-> "finde", o |-> o, tls |-> tls, good |-> good, cfg |-> Cfg]
Tls(t, q) == IF t THEN <<Hs>> \o q ELSE q
Worlds ==
  { [tls |-> t, good |-> g, flt |-> f, up |-> u, c |-> ("d" :> Tls(t, a) @@ "u" :> Tls(u.tls, b))] :
      t \in BOOLEAN, g \in BOOLEAN, f \in BOOLEAN,
      u \in { Up("ok", FALSE, TRUE), Up("ok", TRUE, TRUE), Up("ok", TRUE, FALSE), Up("err", FALSE, TRUE) }, a \in ScriptsD, b \in ScriptsU }

H0 == [fed |-> [x \in Sides |-> <<>>], out |-> [x \in Sides |-> <<>>], finds |-> 0, early |-> FALSE, lost |-> FALSE, blind |-> FALSE]

Init == \E w \in Worlds : /\ w.good \/ w.tls
                          /\ s = Pipe0(w.tls, w.good, Cfg, w.flt)
                          /\ env = [up |-> w.up, c |-> w.c, acc |-> TRUE]
                          /\ h = H0

Tells(x) == x.e = "feed" /\ x.m.k = "msg"
See(e) ==
  CASE Tells(e) -> [h EXCEPT !.fed[e.side] = Append(@, e.m.m.b)]
    [] e.e = "wr" /\ e.init -> h
    [] e.e = "wr" -> [h EXCEPT !.out[e.side] = Append(@, e.m.b),
                               !.early = @ \/ ~Opened(s.sd["d"]) \/ ~Opened(s.sd["u"]) \/ \E x \in Sides : s.sd[x].tls /\ ~s.sd[x].hs]
    [] e.e = "find" -> [h EXCEPT !.finds = @ + 1, !.blind = @ \/ (s.sd["d"].tls /\ ~s.sd["d"].hs)]
    [] OTHER -> h

Wr(x, i, m) == [e |-> "wr", side |-> x, init |-> i, m |-> m, hc |-> "ok", bc |-> "zero"]
Cands ==
  (IF s.ph = "queue" THEN { [e |-> "acc"] } ELSE {})
  \cup UNION { (IF s.sd[x].nhw \/ ~s.sd[x].tls THEN {} ELSE { [e |-> "hw", side |-> x, actor |-> ActorSecurity, recs |-> TRUE, nego |-> TRUE] })
               \cup (IF s.sd[x].raw THEN {} ELSE { [e |-> "rec", side |-> x, t |-> 23] })
               \cup (IF s.sd[x].gated \/ s.sd[x].werr THEN {} ELSE { Wr(x, TRUE, Val(0)) } \cup { Wr(x, FALSE, i.m) : i \in Rng(s.cur[Other(x)]) })
               \cup { [e |-> "fb", side |-> x, m |-> i.m] : i \in Rng(s.cur[x]) }
               \cup (IF s.sd[x].cc \/ ~s.sd[x].have THEN {} ELSE { [e |-> "cc", side |-> x] }) : x \in Sides }
  \cup { [e |-> "find", h |-> n] : n \in { f.h : f \in Rng(s.fst) } \cup (IF s.fst = <<>> THEN {0} ELSE {}) }

Sys ==
  /\ UNCHANGED env
  /\ \/ \E y \in PStep(s) : y # s /\ s' = y /\ h' = h
     \/ \E e \in Cands : \E y \in PEv(s, e) : s' = y /\ h' = See(e)

Filtered(n) == CASE n = 2 -> <<>> [] n = 3 -> <<103>> [] OTHER -> <<n>>
Env ==
  \/ /\ s.ph = "find"
     /\ \E y \in PEv(s, env.up) : s' = y
     /\ UNCHANGED <<env, h>>
  \/ \E x \in Sides :
       /\ s.sd[x].have /\ env.c[x] # <<>>
       /\ LET e == Head(env.c[x]) @@ ("side" :> x) IN
          /\ e.e = "hs" => s.sd[x].nhw /\ s.ph \notin {"queue", "over"}
          /\ Tells(e) => (s.sd[x].tls => s.sd[x].hs /\ s.sd[x].good)
          /\ \E y \in PEv(s, e) : s' = y
          /\ h' = See(e)
       /\ env' = [env EXCEPT !.c[x] = Tail(@)]
  \/ \E x \in Sides : \E i \in Rng(s.cur[x]) :
       /\ i.st = "in"
       /\ \E y \in PEv(s, [e |-> "fe", side |-> x, ms |-> [k \in DOMAIN Filtered(i.m.b) |-> Val(Filtered(i.m.b)[k])]]) : s' = y
       /\ UNCHANGED <<env, h>>

Next == Sys \/ Env
Spec == Init /\ [][Next]_vars /\ WF_vars(Sys)

\* ---------------------------------------------------------- the properties
RECURSIVE Through(_)
Through(q) == IF q = <<>> THEN <<>> ELSE Filtered(Head(q)) \o Through(Tail(q))
Want(x) ==
  LET q == h.fed[x] IN
  IF ~s.flt THEN { q }
  ELSE { Through(q) } \cup (IF x = "d" /\ ~s.sd["d"].tls /\ q # <<>> THEN { <<Head(q)>> \o Through(Tail(q)) } ELSE {})
\* what one side said, and nothing else, comes out at the other, in order
Exact == \A x \in Sides : \E w \in Want(x) : Len(h.out[Other(x)]) <= Len(w) /\ SubSeq(w, 1, Len(h.out[Other(x)])) = h.out[Other(x)]
Order == ~h.early
FindOnce == h.finds <= 1 /\ ~h.blind
AtRest == ~ENABLED Sys
Live == s.ph = "found" /\ ~s.ending /\ Opened(s.sd["d"]) /\ Opened(s.sd["u"])
All == AtRest /\ Live /\ (\A x \in Sides : ~s.sd[x].gated /\ \A i \in Rng(s.cur[x]) : i.st # "in") => \A x \in Sides : h.out[Other(x)] \in Want(x)
\* one end is over, both are
Both == AtRest /\ s.ending => \A x \in Sides : s.sd[x].have => s.sd[x].cc
Rest == AtRest => PQuiet(s)
Settles == <>[](~ENABLED Sys)
=============================================================================

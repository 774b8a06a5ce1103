------------------------------- MODULE WireMC -------------------------------
(* The wire format and its receiver over a universe of small messages.       *)
(* GEN_FILE gets the messages with their frames, to be replayed.             *)
EXTENDS Wire, Json, IOUtils, SequencesExt

CONSTANT Deep

For(ps) == IOEnv.PROP \in ps

Reg == <<[id |-> 30000, ty |-> [k |-> "struct", f |-> <<F("i32"), F("str")>>]]>>
G(ghc, gbc, mask) == [ghc |-> ghc, gbc |-> gbc, mask |-> mask, reg |-> Reg]
C(chc, cbc) == [chc |-> chc, cbc |-> cbc, reg |-> Reg, auth |-> LE(29, 8)]

\* ------------------------------------------------------------ the universe
Guid(n) == [i \in 1..16 |-> (n * i) % 256]
Neg(n) == [i \in 1..8 |-> IF i = 1 THEN n ELSE 255]
Raw(id, v) == [id |-> id, raw |-> TRUE, v |-> v]
Obj(n, s) == [id |-> 30000, raw |-> FALSE, v |-> <<n, s>>]
Act(u) == u

Base0 == [NoHeaders EXCEPT !.id = <<Guid(7), LE(1, 8)>>, !.actor = LE(77, 8)]
HdrSet ==
  { [Base0 EXCEPT !.rel = r, !.action = a, !.cu = cu] :
      r \in {NoId, <<Guid(3), Zeros(8)>>, <<Zeros(16), LE(5, 8)>>}, a \in {<<>>, <<97>>, <<98, 233, 55357, 56832>>},
      cu \in {<<>>, <<Raw(1, <<>>)>>, <<Raw(2, <<1>>), Raw(1, <<2, 3>>), Raw(2, <<4>>)>>, <<Obj(LE(300, 8), <<104>>), Raw(65535, <<0>>), Obj(Neg(200), <<>>)>>} }
  \cup { [Base0 EXCEPT !.exp = e, !.high = h, !.idem = i, !.fb = f, !.err = x, !.retry = y] :
      e \in BOOLEAN, h \in BOOLEAN, i \in BOOLEAN, f \in BOOLEAN, x \in {Zeros(8), LE(1, 8), Neg(0)}, y \in {Zeros(8), LE(64, 8), Neg(255)} }
  \cup { [Base0 EXCEPT !.actor = a, !.id = i] : a \in {Zeros(8), LE(2, 8), LE(65536, 8), Neg(255)}, i \in {<<Guid(7), Zeros(8)>>, <<Zeros(16), LE(9, 8)>>} }
Bodies == {<<>>, <<0>>, [i \in 1..20 |-> i * 11]}
HdrSeq == SetToSeq(HdrSet)

Small == { Base0, [Base0 EXCEPT !.rel = <<Guid(3), LE(2, 8)>>, !.cu = <<Raw(2, <<9>>)>>], [Base0 EXCEPT !.actor = ActorTransport, !.high = TRUE],
           [Base0 EXCEPT !.actor = LE(29, 8), !.action = <<67,111,110,110,101,99,116,105,111,110,65,117,116,104>>, !.err = LE(5, 8)] }
SmallSeq == SetToSeq(Small)

VARIABLES c, st, s, out
vars == <<c, st, s, out>>

\* ------------------------------------------------------------ streams
\* ks: message numbers, each with its body, written one after another
MsgOf(k) == [h |-> SmallSeq[1 + (k % 4)], body |-> IF k >= 8 THEN <<1, 2, 3>> ELSE IF k >= 4 THEN <<9>> ELSE <<>>]
StreamOf(ks, g) == Concat([i \in 1..Len(ks) |-> Build(MsgOf(ks[i]).h, MsgOf(ks[i]).body, g)])
Deliverable(k, cfg) == MsgOf(k).h.actor # ActorTransport
\* what has to be delivered of the whole of the first n messages
Whole(cs, n) == LET cfg == C(cs.g.ghc, cs.g.gbc)
                    D[i \in 0..n] == IF i = 0 THEN <<>> ELSE IF Deliverable(cs.ks[i], cfg) THEN Append(D[i-1], cs.ks[i]) ELSE D[i-1]
                IN D[n]
RejAt(cs) == { i \in 1..Len(cs.ks) : IsRej([k |-> "ok", h |-> MsgOf(cs.ks[i]).h], C(TRUE, TRUE)) }
\* messages complete in the first p bytes, up to a rejection
Complete(cs, p) == LET E(n) == IF n = 0 THEN 0 ELSE cs.ends[n]
                       lim == IF RejAt(cs) = {} THEN Len(cs.ks) ELSE (CHOOSE i \in RejAt(cs) : \A j \in RejAt(cs) : i <= j) - 1
                   IN CHOOSE n \in 0..lim : E(n) <= p /\ (n = lim \/ E(n + 1) > p)

StreamInit ==
  /\ For({"T01"})
  /\ \E ks \in IF Deep THEN { <<a, b>> : a \in 0..11, b \in 0..7 } \cup { <<a, b, d>> : a \in 0..7, b \in 0..3, d \in 8..11 }
             ELSE { <<a, b>> : a \in 0..3, b \in 4..7 } \cup {<<0, 4, 9>>, <<1, 2, 5>>} :
     \E g \in IF Deep THEN {G(TRUE, FALSE, 0), G(TRUE, TRUE, 0), G(FALSE, FALSE, 1)} ELSE {G(TRUE, TRUE, 0)} :
       \E c0 \in {[op |-> "stream", ks |-> ks, g |-> g]} :
         c = c0 @@ [b |-> StreamOf(ks, g), ends |-> [n \in 1..Len(ks) |-> Len(StreamOf(SubSeq(ks, 1, n), g))]]
  /\ st = "open" /\ s = Rcv0 /\ out = <<>>

Cfg == C(c.g.ghc, c.g.gbc)
Feed == /\ st = "open"
        /\ \E n \in IF Deep THEN {1, 2, 3, 11, 12, 13, 40, 100, 1000} ELSE {1, 11, 12, 13, 100} :
             /\ n = 1 \/ Len(s.b) + n <= Len(c.b)
             /\ Len(s.b) + n <= Len(c.b)
             /\ s' = [s EXCEPT !.b = SubSeq(c.b, 1, Len(s.b) + n)]
        /\ UNCHANGED <<c, st, out>>
Eof == st = "open" /\ st' = "eof" /\ s' = [s EXCEPT !.eof = TRUE] /\ UNCHANGED <<c, out>>
Take == \E t \in RcvStep(s, Cfg) : s' = t /\ UNCHANGED <<c, st, out>>
Deliver == \E k \in { c.ks[i] : i \in 1..Len(c.ks) } : \E t \in RcvDeliver(s, [m |-> MsgOf(k).h, body |-> MsgOf(k).body], Cfg) :
             s' = t /\ out' = Append(out, k) /\ UNCHANGED <<c, st>>
EndIt == \E t \in RcvEnd(s, Cfg) : s' = t /\ UNCHANGED <<c, st, out>>

StreamNext == c.op = "stream" /\ (Feed \/ Eof \/ Take \/ Deliver \/ EndIt)

\* at rest exactly the complete messages were delivered
Delivered ==
  c.op = "stream" =>
    LET n == Complete(c, Len(s.b)) IN
    /\ IsPrefix(out, Whole(c, n))
    /\ RcvQuiet(s, Cfg) => out = Whole(c, n)
    \* it ends with the stream, or with a rejection, and never before
    /\ s.st = "end" => s.eof \/ RejAt(c) # {}
    /\ s.st = "end" /\ RejAt(c) = {} => out = Whole(c, n)
\* nothing is stuck
NotStuck == c.op = "stream" /\ ~RcvQuiet(s, Cfg) => ENABLED (Take \/ Deliver \/ EndIt)
Live == c.op = "stream" ~> (s.st = "end" \/ st = "open")

\* ------------------------------------------------------------ cases
Frames == { Build(h, b, g) : h \in {HdrSeq[i] : i \in {1, 5, 17, 30, 40}}, b \in Bodies, g \in {G(TRUE, TRUE, 0)} }
Flip(b, i, k) == [b EXCEPT ![i] = BXor(@, Pow2[k])]

CaseInit ==
  /\ \/ For({"T05"}) /\ \E i \in 1..Len(HdrSeq) : \E body \in Bodies : \E g \in {G(TRUE, FALSE, 0), G(TRUE, TRUE, 0), G(FALSE, FALSE, 1)} :
          c = [op |-> "msg", h |-> HdrSeq[i], body |-> body, g |-> g]
     \/ For({"T03"}) /\ \E f \in Frames : \E i \in 1..Len(f) : \E k \in 0..7 : c = [op |-> "flip", b |-> f, x |-> Flip(f, i, k), i |-> i, k |-> k]
     \/ For({"T03"}) /\ \E f \in Frames : \E i \in 1..8 : \E j \in i..8 : \E k \in 0..7 : \E m \in 0..7 :
          <<i, k>> # <<j, m>> /\ c = [op |-> "flip", b |-> f, x |-> Flip(Flip(f, i, k), j, m), i |-> i, k |-> k]
     \/ For({"T04"}) /\ \E f \in IF Deep THEN Frames ELSE { x \in Frames : Len(x) < 90 } : \E len \in 0..(Len(f) + 3) : \E hl \in 0..(Len(f) + 1) :
          LET x == LE(len, 4) \o <<f[5], 0>> \o LE(hl, 2) IN
          c = [op |-> "len", b |-> f, x |-> [x EXCEPT ![6] = Crc8(x \o Zeros(4))] \o SubSeq(f, 9, Len(f)), len |-> len, hl |-> hl]
  /\ st = 0 /\ s = Rcv0 /\ out = <<>>
CaseNext == c.op # "stream" /\ st = 0 /\ st' = 1 /\ UNCHANGED <<c, s, out>>

On(op) == c.op = op /\ st = 1

RoundTrip == On("msg") =>
  \A b \in {Build(c.h, c.body, c.g)} : \A f \in {Frame(b, 1, C(c.g.ghc, c.g.gbc))} :
    /\ GoodFrame(b, c.g)
    /\ f.k = "ok" /\ f.p = Len(b) + 1 /\ f.body = c.body /\ SameHdrs(f.h, c.h, Reg)
    /\ Carries(f, c.h, c.body, Reg)
    \* self delimiting
    /\ Frame(b \o <<1, 2, 3>>, 1, C(c.g.ghc, c.g.gbc)) = f

\* what is checked is noticed, what is not checked is ignored
Flips == On("flip") =>
  LET f(chc, cbc) == Frame(c.x, 1, C(chc, cbc))
      inHdr == c.i \in 1..8     \* the checksum itself included
  IN /\ inHdr => f(TRUE, FALSE).k = "bad"
     /\ ~inHdr => f(FALSE, TRUE).k = "bad"
     /\ c.i \in 9..12 => f(TRUE, FALSE).k = "ok" /\ f(TRUE, FALSE).body = Frame(c.b, 1, C(TRUE, TRUE)).body
     /\ c.i = 6 /\ c.x[6] # c.b[6] /\ (\A j \in 1..12 : j # 6 => c.x[j] = c.b[j]) => f(FALSE, FALSE).k = "ok" /\ f(FALSE, FALSE).h = Frame(c.b, 1, C(TRUE, TRUE)).h

\* lengths that contradict each other or what is there are never a message, and the receiver is never stuck
Lens == On("len") =>
  \A f \in {Frame(c.x, 1, C(TRUE, FALSE))} :
    /\ f.k \in {"ok", "any"} => c.len >= 12 /\ c.hl <= c.len - 12 /\ c.len <= Len(c.x) /\ f.p = c.len + 1 /\ Len(f.body) = c.len - 12 - c.hl
    /\ c.hl > c.len - 12 => f.k # "ok"
    /\ \A eof \in BOOLEAN : \A r \in {[Rcv0 EXCEPT !.b = c.x, !.eof = eof]} :
         \/ RcvQuiet(r, C(TRUE, FALSE))
         \/ RcvEnd(r, C(TRUE, FALSE)) # {} \/ RcvStep(r, C(TRUE, FALSE)) # {}
         \/ f.k = "ok" /\ RcvDeliver(r, [m |-> f.h, body |-> f.body], C(TRUE, FALSE)) # {}

Init == StreamInit \/ CaseInit
Next == StreamNext \/ CaseNext
Spec == Init /\ [][Next]_vars /\ WF_vars(Take \/ Deliver \/ EndIt) /\ WF_vars(Eof)

ASSUME IOEnv.GEN_FILE = "" \/
  ndJsonSerialize(IOEnv.GEN_FILE, Concat([i \in 1..Len(HdrSeq) |->
    LET bs == SetToSeq(Bodies) IN [j \in 1..Len(bs) |-> [h |-> HdrSeq[i], body |-> bs[j], b |-> Build(HdrSeq[i], bs[j], G(TRUE, FALSE, 0))]]]))
=============================================================================

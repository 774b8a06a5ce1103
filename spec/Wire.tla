-------------------------------- MODULE Wire --------------------------------
(* Frames, their checksums and message headers, byte for byte; what a        *)
(* receiver has to make of a byte stream, and a sender of a message.          *)
EXTENDS Codec, Bitwise, SequencesExt

\* ------------------------------------------------------------ checksums
BXor(a, b) == a ^^ b

Eight == <<1, 2, 3, 4, 5, 6, 7, 8>>
Crc8Bit(c, i) == IF c >= 128 THEN BXor((c * 2) % 256, 7) ELSE c * 2
Crc8Table == [c \in 0..255 |-> FoldLeft(Crc8Bit, c, Eight)]
\* polynomial x^8+x^2+x+1, start 0
Crc8(b) == FoldLeft(LAMBDA c, x : Crc8Table[BXor(c, x)], 0, b)

\* the reflected CRC-32 (IEEE), as <<high, low>> halves
Shr(c) == <<c[1] \div 2, (c[2] \div 2) + (c[1] % 2) * 32768>>
Crc32Bit(c, i) == LET s == Shr(c) IN IF c[2] % 2 = 1 THEN <<BXor(s[1], 60856), BXor(s[2], 33568)>> ELSE s
Crc32Table == [c \in 0..255 |-> FoldLeft(Crc32Bit, <<0, c>>, Eight)]
Crc32Step(c, x) ==
  LET t == Crc32Table[BXor(c[2] % 256, x)]
  IN <<BXor(c[1] \div 256, t[1]), BXor((c[2] \div 256) + (c[1] % 256) * 256, t[2])>>
\* over b[p..q], as 4 little endian bytes
Crc32(b, p, q) ==
  LET c == FoldLeft(Crc32Step, <<65535, 65535>>, SubSeq(b, p, q))
      h == 65535 - c[1]
      l == 65535 - c[2]
  IN <<l % 256, l \div 256, h % 256, h \div 256>>

\* ------------------------------------------------------------ headers
F(k) == [t |-> [k |-> k], emb |-> FALSE]
TyId == [k |-> "struct", f |-> <<F("guid"), F("u32")>>]
TyI64 == [k |-> "struct", f |-> <<F("i64")>>]
TyStr == [k |-> "struct", f |-> <<F("str")>>]
TyBool == [k |-> "struct", f |-> <<F("bool")>>]
TyFault == [k |-> "struct", f |-> <<F("i64"), F("bool")>>]
TyI32 == [k |-> "struct", f |-> <<F("i32")>>]

Invalid == 32768
HActor == 32769
HAction == 32770
HId == 32771
HRel == 32772
HExpects == 32773
HRetry == 32774
HFault == 32775
HIdem == 32776
HHigh == 32777
HNego == 32840

NoId == <<Zeros(16), Zeros(8)>>
NoHeaders == [ id |-> NoId, rel |-> NoId, actor |-> Zeros(8), action |-> <<>>, exp |-> FALSE, high |-> FALSE, idem |-> FALSE,
               err |-> Zeros(8), fb |-> FALSE, retry |-> Zeros(8), cu |-> <<>> ]

ActorTransport == LE(1, 8)

StdTy(id) == CASE id \in {HId, HRel} -> TyId [] id = HActor -> TyI64 [] id = HAction -> TyStr
               [] id \in {HExpects, HHigh, HIdem} -> TyBool [] id = HFault -> TyFault [] id = HRetry -> TyI32
Std == {HId, HRel, HActor, HAction, HExpects, HHigh, HIdem, HFault, HRetry}

SetStd(h, id, v) ==
  CASE id = HId -> [h EXCEPT !.id = v] [] id = HRel -> [h EXCEPT !.rel = v]
    [] id = HActor -> [h EXCEPT !.actor = v[1]] [] id = HAction -> [h EXCEPT !.action = v[1]]
    [] id = HExpects -> [h EXCEPT !.exp = v[1]] [] id = HHigh -> [h EXCEPT !.high = v[1]] [] id = HIdem -> [h EXCEPT !.idem = v[1]]
    [] id = HFault -> [h EXCEPT !.err = v[1], !.fb = v[2]] [] id = HRetry -> [h EXCEPT !.retry = v[1]]

RegTy(reg, id) == IF \E i \in 1..Len(reg) : reg[i].id = id THEN <<reg[CHOOSE i \in 1..Len(reg) : reg[i].id = id].ty>> ELSE <<>>

\* headers b[p..q]. any: a value that the specification says nothing about, or a
\* header that can only be there once again. seen: the standard headers seen
RECURSIVE ParseHdrs(_, _, _, _, _, _, _)
ParseHdrs(b, p, q, h, any, seen, reg) ==
  IF p > q THEN [k |-> IF any THEN "any" ELSE "ok", h |-> h]
  ELSE IF p + 3 > q THEN [k |-> "bad", h |-> h]
  ELSE LET id == b[p] + 256 * b[p+1]
           n == b[p+2] + 256 * b[p+3]
           e == p + 3 + n
       IN IF e > q THEN [k |-> "bad", h |-> h]
          ELSE IF id \in {Invalid, HNego} THEN ParseHdrs(b, e + 1, q, h, any, seen, reg)
          ELSE IF id \notin Std /\ RegTy(reg, id) = <<>>
               THEN ParseHdrs(b, e + 1, q, [h EXCEPT !.cu = Append(@, [id |-> id, raw |-> TRUE, v |-> SubSeq(b, p + 4, e)])], any, seen, reg)
          ELSE LET ty == IF id \in Std THEN StdTy(id) ELSE RegTy(reg, id)[1]
                   d == Dec(ty, SubSeq(b, p + 4, e), 1)
               IN IF d.k \in {"rej", "end"} THEN [k |-> "bad", h |-> h]
                  ELSE IF d.k = "free" \/ d.p # n + 1 \/ id \in seen THEN ParseHdrs(b, e + 1, q, h, TRUE, seen, reg)
                  ELSE ParseHdrs(b, e + 1, q, IF id \in Std THEN SetStd(h, id, d.v)
                                              ELSE [h EXCEPT !.cu = Append(@, [id |-> id, raw |-> FALSE, v |-> d.v])],
                                 any, IF id \in Std THEN seen \cup {id} ELSE seen, reg)

\* headers in the order the sender prefers do not matter, repeated ones do
ById(cu, id) == SelectSeq(cu, LAMBDA x : x.id = id)
SameCu(a, b, reg) ==
  /\ Len(a) = Len(b)
  /\ \A id \in { a[i].id : i \in 1..Len(a) } \cup { b[i].id : i \in 1..Len(b) } :
       LET x == ById(a, id)  y == ById(b, id) IN
       /\ Len(x) = Len(y)
       /\ \A i \in 1..Len(x) : x[i].raw = y[i].raw /\ IF x[i].raw THEN x[i].v = y[i].v ELSE Same(RegTy(reg, id)[1], x[i].v, y[i].v)
SameHdrs(x, y, reg) ==
  /\ [x EXCEPT !.cu = <<>>] = [y EXCEPT !.cu = <<>>]
  /\ SameCu(x.cu, y.cu, reg)

\* ------------------------------------------------------------ frames
\* cfg: chc, cbc: checksums are checked; reg: registered header types.
\* k: "more" bytes are needed, "bad" (full: nothing more has to be read to know), "ok", "any"
Frame(b, p, cfg) ==
  LET n == Len(b) - p + 1
      bad(full) == [k |-> "bad", full |-> full, h |-> NoHeaders, body |-> <<>>, p |-> p, l |-> 0]
  IN IF n < 12 THEN [k |-> "more", full |-> FALSE, h |-> NoHeaders, body |-> <<>>, p |-> p, l |-> 0]
     ELSE LET len == NatOf(SubSeq(b, p, p + 3))
              hl == b[p+6] + 256 * b[p+7]
              full == len # -1 /\ n >= len
          IN IF cfg.chc /\ b[p+5] # Crc8([i \in 1..12 |-> IF i = 6 \/ i > 8 THEN 0 ELSE b[p+i-1]]) THEN bad(TRUE)
             ELSE IF len # -1 /\ len < 12 THEN bad(TRUE)
             ELSE IF len # -1 /\ hl > len - 12 THEN bad(full)
             ELSE IF ~full THEN [k |-> "more", full |-> FALSE, h |-> NoHeaders, body |-> <<>>, p |-> p, l |-> 0]
             ELSE IF cfg.cbc /\ SubSeq(b, p + 8, p + 11) # Crc32(b, p + 12, p + len - 1) THEN bad(TRUE)
             ELSE LET h == ParseHdrs(b, p + 12, p + 11 + hl, NoHeaders, FALSE, {}, cfg.reg)
                  IN IF h.k = "bad" THEN bad(TRUE)
                     ELSE [k |-> h.k, full |-> TRUE, h |-> h.h, body |-> SubSeq(b, p + 12 + hl, p + len - 1), p |-> p + len, l |-> len]

\* ------------------------------------------------------------ a receiver
\* s: b all bytes so far, p the first not yet consumed, eof, st: "run", "cb", "end"
Rcv0 == [b |-> <<>>, p |-> 1, eof |-> FALSE, st |-> "run"]

Auth(h, cfg) == h.actor = cfg.auth /\ h.action = <<67,111,110,110,101,99,116,105,111,110,65,117,116,104>>
IsRej(f, cfg) == f.k = "ok" /\ Auth(f.h, cfg) /\ ~IsZeroBytes(f.h.err)

\* frames consumed without anybody noticing
RcvStep(s, cfg) ==
  IF s.st # "run" THEN {}
  ELSE LET f == Frame(s.b, s.p, cfg) IN
       IF f.k = "any" \/ (f.k = "ok" /\ f.h.actor = ActorTransport) THEN { [s EXCEPT !.p = f.p] } ELSE {}

RcvDeliver(s, e, cfg) ==
  IF s.st # "run" THEN {}
  ELSE LET f == Frame(s.b, s.p, cfg) IN
       IF f.k = "any" THEN IF f.body = e.body THEN { [s EXCEPT !.p = f.p] } ELSE {}
       ELSE IF f.k = "ok" /\ f.h.actor # ActorTransport /\ ~IsRej(f, cfg) /\ SameHdrs(f.h, e.m, cfg.reg) /\ f.body = e.body
            THEN { [s EXCEPT !.p = f.p] } ELSE {}

RcvEnd(s, cfg) ==
  IF s.st # "run" THEN {}
  ELSE LET f == Frame(s.b, s.p, cfg) IN
       IF f.k \in {"bad", "any"} \/ IsRej(f, cfg) \/ (f.k = "more" /\ s.eof) THEN { [s EXCEPT !.st = "end"] } ELSE {}

RcvQuiet(s, cfg) ==
  s.st = "run" =>
    LET f == Frame(s.b, s.p, cfg) IN ~s.eof /\ (f.k = "more" \/ (f.k = "bad" /\ ~f.full))

\* ------------------------------------------------------------ a sender
Plain(reg) == [chc |-> FALSE, cbc |-> FALSE, reg |-> reg, auth |-> Zeros(8)]

\* one frame with the checksums the configuration asks for. g: ghc, gbc: they are made, mask
GoodFrame(b, g) ==
  /\ Len(b) >= 12
  /\ b[5] = g.mask
  /\ b[6] = (IF g.ghc THEN Crc8([i \in 1..12 |-> IF i = 6 \/ i > 8 THEN 0 ELSE b[i]]) ELSE 0)
  /\ SubSeq(b, 9, 12) = (IF g.gbc THEN Crc32(b, 13, Len(b)) ELSE <<0, 0, 0, 0>>)
  /\ LET f == Frame(b, 1, Plain(g.reg)) IN f.k = "ok" /\ f.p = Len(b) + 1

\* the frame is the message. An identity is assigned if it has none
Carries(f, m, body, reg) ==
  /\ f.k = "ok"
  /\ f.body = body
  /\ f.h.id # NoId
  /\ SameHdrs(f.h, IF m.id = NoId THEN [m EXCEPT !.id = f.h.id] ELSE m, reg)

\* how headers may be written
Hdr(id, data) == LE(id, 2) \o LE(Len(data), 2) \o data
EncHdrs(h, reg) ==
     Hdr(HId, Enc(TyId, h.id))
  \o (IF h.rel = NoId THEN <<>> ELSE Hdr(HRel, Enc(TyId, h.rel)))
  \o Hdr(HActor, Enc(TyI64, <<h.actor>>))
  \o (IF h.action = <<>> THEN <<>> ELSE Hdr(HAction, Enc(TyStr, <<h.action>>)))
  \o (IF h.exp THEN Hdr(HExpects, Enc(TyBool, <<TRUE>>)) ELSE <<>>)
  \o (IF h.high THEN Hdr(HHigh, Enc(TyBool, <<TRUE>>)) ELSE <<>>)
  \o (IF h.idem THEN Hdr(HIdem, Enc(TyBool, <<TRUE>>)) ELSE <<>>)
  \o (IF IsZeroBytes(h.err) /\ ~h.fb THEN <<>> ELSE Hdr(HFault, Enc(TyFault, <<h.err, h.fb>>)))
  \o (IF IsZeroBytes(h.retry) THEN <<>> ELSE Hdr(HRetry, Enc(TyI32, <<h.retry>>)))
  \o Concat([i \in 1..Len(h.cu) |-> Hdr(h.cu[i].id, IF h.cu[i].raw THEN h.cu[i].v ELSE Enc(RegTy(reg, h.cu[i].id)[1], h.cu[i].v))])

Build(h, body, g) ==
  LET hs == EncHdrs(h, g.reg)
      pre == LE(12 + Len(hs) + Len(body), 4) \o <<g.mask, 0>> \o LE(Len(hs), 2)
      all == hs \o body
  IN [pre EXCEPT ![6] = IF g.ghc THEN Crc8(pre \o Zeros(4)) ELSE 0]
     \o (IF g.gbc THEN Crc32(all, 1, Len(all)) ELSE Zeros(4)) \o all
=============================================================================

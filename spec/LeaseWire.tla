----------------------------- MODULE LeaseWire -----------------------------
(* Frames and messages of the lease protocol, byte for byte.                 *)
EXTENDS Bytes, SequencesExt

At(b, p, n) == SubSeq(b, p, p + n - 1)
\* -1: 2^31 or more
U32At(b, p) == NatOf(At(b, p, 4))
U16At(b, p) == b[p] + 256 * b[p + 1]

\* -------------------------------------------------------------- frames
FrameHead == 12
MessageFrame == 1
ConnectFrame == 2

Frame(t, body) == <<t, 0, 0, 0>> \o LE(FrameHead + Len(body), 4) \o Zeros(4) \o body
Hello == Frame(ConnectFrame, <<>>)

\* the first frame of a stream. k: more (not all of it is here), msg, skip,
\* odd (a connect frame shorter than its header: what follows is not
\* specified), bad. n: its length
FrameOf(b) ==
  IF Len(b) < FrameHead THEN [k |-> "more", n |-> 0]
  ELSE LET n == U32At(b, 5)
           short == n = -1 \/ n > Len(b)
       IN CASE b[1] = MessageFrame -> IF n \in 0..(FrameHead - 1) THEN [k |-> "bad", n |-> 0]
                                      ELSE IF short THEN [k |-> "more", n |-> 0] ELSE [k |-> "msg", n |-> n]
            [] b[1] = ConnectFrame -> IF n \in 0..(FrameHead - 1) THEN [k |-> "odd", n |-> FrameHead]
                                      ELSE IF short THEN [k |-> "more", n |-> 0] ELSE [k |-> "skip", n |-> n]
            [] OTHER -> [k |-> "bad", n |-> 0]

\* ------------------------------------------------------------ messages
HeadLen == 200
PingRequest == 2
PingResponse == 3
Inet == 2

\* places in the header
PMajor == 1
PMinor == 2
PHeadLen == 5
PLen == 9
PId == 17
PType == 25
PInst == 33
PRem == 41
PDur == 49
PExp == 57
PSusp == 65
PArb == 69
PTwoWay == 73
PList(i) == 77 + 12 * (i - 1)     \* count, offset, size: 9 lists
PEp == PList(10)

\* text as UTF-16 units; what is not a character reads as U+FFFD
Hi(u) == u \div 1024 = 54
Lo(u) == u \div 1024 = 55
Text(u) == [i \in 1..Len(u) |->
  IF Hi(u[i]) /\ ~(i < Len(u) /\ Lo(u[i + 1])) THEN 65533
  ELSE IF Lo(u[i]) /\ ~(i > 1 /\ Hi(u[i - 1])) THEN 65533 ELSE u[i]]

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>

\* an address as sessions name it
HostPort(host, port) ==
  (IF \E i \in 1..Len(host) : host[i] \in {58, 37} THEN <<91>> \o host \o <<93>> ELSE host) \o <<58>> \o Digits(port)

Units(b) == [i \in 1..(Len(b) \div 2) |-> U16At(b, 2 * i - 1)]
UnitBytes(u) == [i \in 1..(2 * Len(u)) |-> IF i % 2 = 1 THEN u[(i + 1) \div 2] % 256 ELSE u[(i + 1) \div 2] \div 256]

Rect(b, p) == [count |-> U32At(b, p), off |-> U32At(b, p + 4), size |-> U32At(b, p + 8)]
Within(r, n) == r.off >= 0 /\ r.size >= 0 /\ r.off <= n /\ r.size <= n - r.off

\* what a message means: bad (not a message), pong (for ep), none. lax: it
\* contradicts itself in places a reader need not look at
Meaning(b) ==
  IF Len(b) < HeadLen THEN [k |-> "bad", lax |-> FALSE, ep |-> <<>>, rem |-> <<>>]
  ELSE LET r == Rect(b, PEp)
           bad == [k |-> "bad", lax |-> FALSE, ep |-> <<>>, rem |-> <<>>]
       IN IF ~Within(r, Len(b)) \/ r.size < 4 THEN bad
          ELSE LET us == Units(At(b, r.off + 1, (r.size - 4) - (r.size % 2)))
                   nul == us # <<>> /\ us[Len(us)] = 0
                   host == IF nul THEN SubSeq(us, 1, Len(us) - 1) ELSE us
                   q == r.off + 1 + 2 * Len(us)
               IN [k |-> IF At(b, PType, 4) = LE(PingResponse, 4) THEN "pong" ELSE "none",
                   ep |-> HostPort(Text(host), U16At(b, q + 2)),
                   rem |-> At(b, PRem, 8),
                   lax |-> \/ b[PMajor] # 2 \/ b[PMinor] # 1 \/ U32At(b, PHeadLen) # HeadLen \/ U32At(b, PLen) # Len(b)
                           \/ r.size % 2 # 0 \/ r.off < HeadLen \/ ~nul \/ U16At(b, q) # Inet
                           \/ \E i \in 1..Len(host) : host[i] = 0
                           \/ U32At(b, PType) = -1
                           \/ \E i \in 1..9 : LET l == Rect(b, PList(i)) IN ~Within(l, Len(b)) \/ l.off < HeadLen]

\* what a stream b says: its items, and what is left of it. Nothing is read
\* after bad
RECURSIVE ItemsFrom(_, _)
ItemsFrom(b, acc) ==
  LET f == FrameOf(b)
      rest == SubSeq(b, f.n + 1, Len(b))
  IN CASE f.k = "more" -> [items |-> acc, rest |-> b]
       [] f.k = "bad" -> [items |-> Append(acc, [k |-> "fatal", lax |-> FALSE, ep |-> <<>>, rem |-> <<>>]), rest |-> <<>>]
       [] f.k = "skip" -> ItemsFrom(rest, acc)
       [] f.k = "odd" -> ItemsFrom(rest, Append(acc, [k |-> "odd", lax |-> TRUE, ep |-> <<>>, rem |-> <<>>]))
       [] OTHER -> ItemsFrom(rest, Append(acc, Meaning(At(b, FrameHead + 1, f.n - FrameHead))))
Items(b) == ItemsFrom(b, <<>>)

\* --------------------------------------------------- messages we know of
\* a message of a given type. lists: the nine lists' bytes
Message(typ, inst, rem, exp, lists, host, port) ==
  LET bodies == [i \in 1..9 |-> LE(Len(lists[i]), 4) \o lists[i]]
      offs == [i \in 1..10 |-> HeadLen + FoldLeft(LAMBDA a, x : a + Len(x), 0, SubSeq(bodies, 1, i - 1))]
      ep == UnitBytes(host \o <<0>>) \o LE(Inet, 2) \o LE(port, 2)
      total == offs[10] + Len(ep)
      head == <<2, 1, 0, 0>> \o LE(HeadLen, 4) \o LE(total, 4) \o Zeros(4) \o LE(1, 8) \o LE(typ, 4) \o Zeros(4) \o inst \o rem
              \o Zeros(8) \o exp \o Zeros(12)
      descs == FoldLeft(LAMBDA a, x : a \o x, <<>>, [i \in 1..9 |-> LE(0, 4) \o LE(offs[i], 4) \o LE(Len(bodies[i]), 4)])
  IN head \o descs \o LE(0, 4) \o LE(offs[10], 4) \o LE(Len(ep), 4) \o Zeros(4) \o FoldLeft(LAMBDA a, x : a \o x, <<>>, bodies) \o ep

NoLists == [i \in 1..9 |-> Zeros(4)]

\* is this a whole frame with a ping of an agent with this configuration
\* (host, port, exp: the lease duration in milliseconds)
PingOf(cfg, f) ==
  LET b == SubSeq(f, FrameHead + 1, Len(f))
      e == Rect(b, PEp)
      ep == UnitBytes(cfg.host \o <<0>>) \o LE(Inet, 2) \o LE(cfg.port, 2)
      rects == [i \in 1..10 |-> Rect(b, PList(i))]
      no == [ok |-> FALSE, inst |-> <<>>, rem |-> <<>>]
  IN IF Len(f) < FrameHead + HeadLen THEN no
     ELSE IF ~(At(f, 1, 12) = At(Frame(MessageFrame, b), 1, 12)) THEN no
     ELSE IF \A i \in 1..10 : Within(rects[i], Len(b)) /\ rects[i].off >= HeadLen /\ rects[i].count = 0 THEN
       [ok |-> /\ b[PMajor] = 2 /\ b[PMinor] = 1
               /\ U32At(b, PHeadLen) = HeadLen /\ U32At(b, PLen) = Len(b)
               /\ ~IsZeroBytes(At(b, PId, 8))
               /\ At(b, PType, 4) = LE(PingRequest, 4)
               /\ At(b, PExp, 8) = cfg.exp
               \* the others are left out, or what the agent is configured with
               /\ At(b, PDur, 4) \in {Zeros(4), SubSeq(cfg.exp, 1, 4)}
               /\ At(b, PSusp, 4) \in {Zeros(4), cfg.susp} /\ At(b, PArb, 4) \in {Zeros(4), cfg.arb}
               /\ b[PTwoWay] = 0
               \* no two places overlap and nothing is left over
               /\ \A i, j \in 1..10 : i < j => rects[i].off + rects[i].size <= rects[j].off \/ rects[j].off + rects[j].size <= rects[i].off
               /\ HeadLen + FoldLeft(LAMBDA a, x : a + x.size, 0, rects) = Len(b)
               /\ \A i \in 1..9 : At(b, rects[i].off + 1, rects[i].size) = LE(4, 4) \o Zeros(4)
               /\ At(b, e.off + 1, e.size) = ep
               /\ ~IsZeroBytes(At(b, PInst, 8)),
        inst |-> At(b, PInst, 8), rem |-> At(b, PRem, 8)]
     ELSE no
=============================================================================

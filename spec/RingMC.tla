------------------------------- MODULE RingMC -------------------------------
(* The definitions of Ring on a ring small enough to walk.                   *)
EXTENDS Ring, FiniteSets, TLC
CONSTANTS B, N

Ids == [1..N -> 0..(B-1)]
\* literally walking up from a, until something in s is met
RECURSIVE Walk(_, _)
Walk(a, s) == IF a \in s THEN a ELSE Walk(Succ1(a, B), s)

VARIABLES b, e, id
Init == b \in Ids /\ e = b /\ id = b
Next == e = b /\ id = b /\ e' \in Ids /\ id' \in Ids /\ b' = b
Spec == Init /\ [][Next]_<<b, e, id>>

Seq0(f) == [i \in 1..N |-> f[i]]

\* met no later than the end: the walk from b meets id before it has left e
WalkInRange(x, y, z) ==
  LET w == Walk(Seq0(x), {Seq0(y), Seq0(z)}) IN w = Seq0(z)
RangeIsWalk == InRange(Seq0(b), Seq0(e), Seq0(id), B) = WalkInRange(b, e, id)
\* what begin <= end and wrapping ranges mean
RangeIsOrder ==
  LET le(x, y) == ~LessD(Seq0(y), Seq0(x)) IN
  InRange(Seq0(b), Seq0(e), Seq0(id), B) =
    IF le(b, e) THEN le(b, id) /\ le(id, e) ELSE le(b, id) \/ le(id, e)
BothEnds == InRange(Seq0(b), Seq0(e), Seq0(b), B) /\ InRange(Seq0(b), Seq0(e), Seq0(e), B)
\* routing: the first met when walking up
ClosestIsWalk ==
  \A s \in {{Seq0(b), Seq0(e)}, {Seq0(b)}, {Seq0(b), Seq0(e), [i \in 1..N |-> (b[i] + e[i]) % B]}} :
    Closest(s, Seq0(id), B) = Walk(Seq0(id), s)
ExactFirst == Closest({Seq0(b), Seq0(e), Seq0(id)}, Seq0(id), B) = Seq0(id)

\* ---- names, text and spans (constant level)
SampleIds == { [i \in 1..16 |-> (i * k + j) % 256] : k \in {0, 1, 17, 255}, j \in {0, 1, 128, 255} }
ASSUME HexRoundTrip == \A x \in SampleIds : OfHex(HexOf(x)) = [k |-> "ok", id |-> x]
ASSUME BytesRoundTrip == \A x \in SampleIds : OfIdBytes(IdBytes(x)) = x
\* spreading is a bijection on 24 bits: its factor has an inverse
Mul24(a, c) == LET ah == a \div 4096
                   al == a % 4096
                   ch == c \div 4096
                   cl == c % 4096
               IN (al * cl + ((al * ch + ah * cl) % 4096) * 4096) % M24
InvStep(x) == Mul24(x, (2 + M24 - Mul24(14938617 % M24, x)) % M24)   \* Newton, doubles the correct bits
InvFactor == InvStep(InvStep(InvStep(InvStep(InvStep(1)))))
ASSUME SpreadIsBijective == Mul24(14938617 % M24, InvFactor) = 1
ASSUME SpreadInverts == \A a \in 0..3000 \cup {M24 - 1, M24 - 2, M24 \div 2} : Mul24(Spread(a), InvFactor) = a
\* names that differ in the instance only share the last 13 bytes of name and instance hash or differ on top
Nm(k) == <<78, 95>> \o <<48 + k>>
ASSUME InstancesDiffer == \A i, j \in 0..9 : i # j => SubSeq(NameId(Nm(i)), 1, 3) # SubSeq(NameId(Nm(j)), 1, 3)
ASSUME NoInstance == \A u \in {<<>>, <<78>>, <<78, 46>>, <<95>>, <<78, 95, 120>>, <<46, 45, 49>>} : NameId(u) = PlainId(u)

\* spans: small magnitudes
Val(x) == (IF x.n THEN -1 ELSE 1) * FoldLeft(LAMBDA a, c : a * 10 + c, 0, x.d)
Num(i) == LET a == IF i < 0 THEN -i ELSE i IN
          [n |-> i < 0, d |-> IF a = 0 THEN <<>> ELSE IF a < 10 THEN <<a>> ELSE IF a < 100 THEN <<a \div 10, a % 10>>
                              ELSE <<a \div 100, (a \div 10) % 10, a % 10>>]
ASSUME SpanRoundTrip ==
  \A i \in -999..999 : \A s \in DurToSpans(Num(i)) :
     /\ Val(Num(i)) = i
     /\ LET d == Val(SpanToDur(s)) - i IN d > -100 /\ d < 100
     /\ ~(i < 0 /\ Val(s) > 0) /\ ~(i > 0 /\ Val(s) < 0)
ASSUME SpanSaturates ==
  /\ SpanToDur([n |-> FALSE, d |-> MaxPos]) = [n |-> FALSE, d |-> MaxPos]
  /\ SpanToDur([n |-> TRUE, d |-> MaxNeg]) = [n |-> TRUE, d |-> MaxNeg]
=============================================================================

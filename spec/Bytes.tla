------------------------------- MODULE Bytes -------------------------------
(* Byte strings, bits and the 7-bit group compression of integers.          *)
(* TLC integers have 32 bits, so wider integers are sequences of bytes,     *)
(* least significant byte first, sign extended to 8 bytes.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Byte == 0..255

Pow2 == [i \in 0..30 |-> 2^i]

\* bit i (from 0) of a little endian byte string, beyond its end: sgn
BitOf(b, i, sgn) ==
  IF i \div 8 < Len(b) THEN (b[(i \div 8) + 1] \div Pow2[i % 8]) % 2 ELSE sgn

SignOf(b) == b[Len(b)] \div 128

\* little endian bytes of a natural number below 2^31
LE(n, w) == [i \in 1..w |-> IF i > 4 THEN 0 ELSE (n \div Pow2[IF i > 3 THEN 24 ELSE 8*(i-1)]) % 256]

\* value of little endian bytes if below 2^31, else -1
NatOf(b) ==
  IF \E i \in 5..Len(b) : b[i] # 0 THEN -1
  ELSE IF Len(b) >= 4 /\ b[4] >= 128 THEN -1
  ELSE (IF Len(b) >= 1 THEN b[1] ELSE 0) + (IF Len(b) >= 2 THEN b[2] * 256 ELSE 0)
     + (IF Len(b) >= 3 THEN b[3] * 65536 ELSE 0) + (IF Len(b) >= 4 THEN b[4] * 16777216 ELSE 0)

IsZeroBytes(b) == \A i \in 1..Len(b) : b[i] = 0

\* ---------------------------------------------------------- compression
MaxGroups(w) == (w * 8 + 6) \div 7

\* v: 8 bytes, sgn: 0, or the sign bit of a signed value
GroupsNeeded(v, sgn) ==
  CHOOSE n \in 1..10 :
    /\ \A i \in (7*n - 1)..69 : BitOf(v, i, sgn) = sgn
    /\ \A m \in 1..(n-1) : \E i \in (7*m - 1)..69 : BitOf(v, i, sgn) # sgn

GroupVal(v, g, sgn) ==
  BitOf(v,7*g,sgn) + 2*BitOf(v,7*g+1,sgn) + 4*BitOf(v,7*g+2,sgn) + 8*BitOf(v,7*g+3,sgn)
   + 16*BitOf(v,7*g+4,sgn) + 32*BitOf(v,7*g+5,sgn) + 64*BitOf(v,7*g+6,sgn)

\* the only encoding of v: as few groups as keep the sign, most significant first
Compress(v, signed) ==
  LET sgn == IF signed THEN SignOf(v) ELSE 0
      n == GroupsNeeded(v, sgn)
  IN [k \in 1..n |-> GroupVal(v, n - k, sgn) + (IF k < n THEN 128 ELSE 0)]

\* value of an encoding: bits of the groups, the top bit of the first is the sign
\* bytes b[p..q] are the groups
GroupsToBytes(b, p, q) ==
  LET n == q - p + 1
      sgn == (b[p] \div 64) % 2
      bit(i) == LET g == i \div 7 IN
                IF g >= n THEN sgn ELSE (b[q - g] \div Pow2[i % 7]) % 2
  IN [j \in 1..8 |->
        bit(8*j-8) + 2*bit(8*j-7) + 4*bit(8*j-6) + 8*bit(8*j-5)
         + 16*bit(8*j-4) + 32*bit(8*j-3) + 64*bit(8*j-2) + 128*bit(8*j-1)]

\* does the value of n groups fit into w bytes (its bits beyond 64 included)
FitsWidth(b, p, q, w, signed) ==
  LET n == q - p + 1
      sgn == (b[p] \div 64) % 2
      bit(i) == LET g == i \div 7 IN
                IF g >= n THEN sgn ELSE (b[q - g] \div Pow2[i % 7]) % 2
      hi == IF 7*n > 8*w THEN 7*n ELSE 8*w
  IN IF signed
     THEN \A i \in (8*w - 1)..hi : bit(i) = bit(8*w - 1)
     ELSE \A i \in (8*w)..hi : bit(i) = 0

\* reads groups at p, at most MaxGroups(w).
\* k: "ok", "end" ran out of bytes, "long" continues too far, "big" does not fit
\* 16 or 32 bits (what 64 bits make of such an encoding is not specified)
ReadCompressed(b, p, w, signed) ==
  LET mx == MaxGroups(w)
      lim == IF p + mx - 1 > Len(b) THEN Len(b) ELSE p + mx - 1
      stops == { q \in p..lim : b[q] < 128 }
  IN IF stops = {}
     THEN IF lim < p + mx - 1 THEN [k |-> "end", p |-> p, v |-> <<>>, canon |-> FALSE]
                              ELSE [k |-> "long", p |-> p, v |-> <<>>, canon |-> FALSE]
     ELSE LET q == CHOOSE x \in stops : \A y \in stops : x <= y
              v == GroupsToBytes(b, p, q)
          IN IF ~FitsWidth(b, p, q, w, signed)
             THEN [k |-> IF w < 8 THEN "big" ELSE "odd", p |-> q + 1, v |-> v, canon |-> FALSE]
             ELSE [k |-> "ok", p |-> q + 1, v |-> v, canon |-> SubSeq(b, p, q) = Compress(v, signed)]

\* ---------------------------------------------------------- misc
Concat(ss) ==
  LET F[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE F[i-1] \o ss[i] IN F[Len(ss)]

Zeros(n) == [i \in 1..n |-> 0]
=============================================================================

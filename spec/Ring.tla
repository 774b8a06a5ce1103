-------------------------------- MODULE Ring --------------------------------
(* The ring of node ids, their text and binary form, the derivation of ids   *)
(* from names, and time spans.                                               *)
(*                                                                           *)
(* An id is a sequence of digits of base B, most significant first: 16       *)
(* bytes for real ids, fewer and smaller ones in models.                     *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

\* a < b for digits of the same length
LessD(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]

\* (a - b) mod B^n: the number of steps up the ring from b to a
Dist(b, a, B) ==
  LET n == Len(a)
      F[i \in 1..(n+1)] ==    \* <<borrow into digit i-1, digits i..n>>
        IF i = n + 1 THEN <<0, <<>>>>
        ELSE LET r == F[i+1]
                 d == a[i] - b[i] - r[1]
             IN IF d < 0 THEN <<1, <<d + B>> \o r[2]>> ELSE <<0, <<d>> \o r[2]>>
  IN F[1][2]

Succ1(a, B) ==
  LET n == Len(a)
      F[i \in 1..(n+1)] ==
        IF i = n + 1 THEN <<1, <<>>>>
        ELSE LET r == F[i+1] IN
             IF a[i] + r[1] = B THEN <<1, <<0>> \o r[2]>> ELSE <<0, <<a[i] + r[1]>> \o r[2]>>
  IN F[1][2]

\* id is met no later than e when walking up from b
InRange(b, e, id, B) == ~LessD(Dist(b, e, B), Dist(b, id, B))

\* of the ids in s the one met first when walking up from id
Closest(s, id, B) == CHOOSE x \in s : \A y \in s : y = x \/ LessD(Dist(id, x, B), Dist(id, y, B))

\* ---------------------------------------------------------------- text
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v

\* 32 lower case digits
HexOf(id) == [i \in 1..32 |-> LET b == id[(i + 1) \div 2] IN HexDigit(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]

\* k: "ok" the id, "no" not a 128-bit hexadecimal number, "long" more digits than needed, may be refused
OfHex(s) ==
  IF s = <<>> \/ \E i \in 1..Len(s) : HexVal(s[i]) < 0 THEN [k |-> "no", id |-> <<>>]
  ELSE IF \E i \in 1..(Len(s) - 32) : s[i] # 48 THEN [k |-> "no", id |-> <<>>]
  ELSE LET d(i) == IF Len(s) + i - 32 < 1 THEN 0 ELSE HexVal(s[Len(s) + i - 32])  \* i of 32 digits
       IN [k |-> IF Len(s) > 32 THEN "long" ELSE "ok", id |-> [j \in 1..16 |-> 16 * d(2*j - 1) + d(2*j)]]

\* ---------------------------------------------------------------- binary
\* both halves least significant byte first
IdBytes(id) == [i \in 1..16 |-> IF i <= 8 THEN id[9 - i] ELSE id[25 - i]]
OfIdBytes(b) == [i \in 1..16 |-> IF i <= 8 THEN b[9 - i] ELSE b[25 - i]]

\* an object with a body of less than 200 bytes
ObjEnc(body) == <<0, Len(body) + 11, 0, 0, 0, 0, 0, 0, 0, 31>> \o body \o <<47, 63>>

\* array of unsigned chars, count 16
IdEnc(id) == <<132, 16>> \o IdBytes(id)

\* ---------------------------------------------------------------- names
\* Service Fabric's V4 generator: a permutation hash of the UTF-16 name; a trailing number
\* after the last dot or underscore is spread over the top 24 bits
PT == <<
1,87,49,12,176,178,102,166,121,193,6,84,249,230,44,163,
14,197,213,181,161,85,218,80,64,239,24,226,236,142,38,200,
110,177,104,103,141,253,255,50,77,101,81,18,45,96,31,222,
25,107,190,70,86,237,240,34,72,242,20,214,244,227,149,235,
97,234,57,22,60,250,82,175,208,5,127,199,111,62,135,248,
174,169,211,58,66,154,106,195,245,171,17,187,182,179,0,243,
132,56,148,75,128,133,158,100,130,126,91,13,153,246,216,219,
119,68,223,78,83,88,201,99,122,11,92,32,136,114,52,10,
138,30,48,183,156,35,61,26,143,74,251,94,129,162,63,152,
170,7,115,167,241,206,3,150,55,59,151,220,90,53,23,131,
125,173,15,238,79,95,89,16,105,137,225,224,217,160,37,123,
118,73,2,157,46,116,9,145,134,228,207,212,202,215,69,229,
27,188,67,124,168,252,42,4,29,108,21,247,19,205,39,203,
233,40,186,147,198,192,155,33,164,191,98,204,165,180,117,76,
140,36,210,172,41,54,159,8,185,232,113,196,231,47,146,120,
51,65,28,144,254,221,93,189,194,139,112,43,71,109,184,209 >>

Prefix == <<85, 84, 122, 74>>      \* UTzJ
Suffix == <<88, 51, 105, 102>>     \* X3if

\* 16 hash bytes of UTF-16 units
NameHash(u) ==
  LET p == Prefix \o u \o Suffix
      n == 2 * Len(p)
      byte(i) == IF i % 2 = 1 THEN p[(i+1) \div 2] % 256 ELSE p[i \div 2] \div 256
      bs == [i \in 1..(n-1) |-> byte(i + 1)]
      one(j) == FoldLeft(LAMBDA h, x : PT[(h ^^ x) + 1], PT[((byte(1) + j) % 256) + 1], bs)
  IN [j \in 1..16 |-> one(j - 1)]

\* id whose binary form is the hash
PlainId(u) == OfIdBytes(NameHash(u))

M24 == 16777216
\* (a * 14938617) mod 2^24, both factors cut in halves of 12 bits
Spread(a) == LET ah == a \div 4096
                 al == a % 4096
                 ch == 14938617 \div 4096
                 cl == 14938617 % 4096
             IN (al * cl + ((al * ch + ah * cl) % 4096) * 4096) % M24

Max64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>  \* 18446744073709551615

StripZeros(d) == LET nz == { i \in 1..Len(d) : d[i] # 48 } IN
                 IF nz = {} THEN <<>> ELSE SubSeq(d, CHOOSE i \in nz : \A j \in nz : i <= j, Len(d))
\* decimal text of a number of 64 bits
IsU64(d) == /\ d # <<>>
            /\ \A i \in 1..Len(d) : d[i] \in 48..57
            /\ LET s == StripZeros(d) IN Len(s) < 20 \/ (Len(s) = 20 /\ ~LessD(Max64, s))
\* its value modulo 2^24 (2^24 divides 2^64)
DecMod24(d) == FoldLeft(LAMBDA a, c : (a * 10 + (c - 48)) % M24, 0, d)

NameId(u) ==
  LET seps == { i \in 1..Len(u) : u[i] \in {46, 95} }
  IN IF seps = {} THEN PlainId(u)
     ELSE LET k == CHOOSE i \in seps : \A j \in seps : j <= i
              inst == SubSeq(u, k + 1, Len(u))
          IN IF ~IsU64(inst) THEN PlainId(u)
             ELSE LET rh == NameHash(SubSeq(u, 1, k - 1))
                      off == rh[9] + 256 * rh[10] + 65536 * rh[11]
                      y == Spread((off + DecMod24(inst)) % M24)
                  IN <<y \div 65536, (y \div 256) % 256, y % 256>> \o SubSeq(PlainId(u), 4, 16)

\* MD5 of the test suite of RFC 1321, as ids (halves least significant byte first)
MD5Vectors == << \* name (ASCII), hash bytes
 << <<>>, <<212,29,140,217,143,0,178,4,233,128,9,152,236,248,66,126>> >>,
 << <<97>>, <<12,193,117,185,192,241,182,168,49,195,153,226,105,119,38,97>> >>,
 << <<97,98,99>>, <<144,1,80,152,60,210,79,176,214,150,63,125,40,225,127,114>> >> >>

\* ---------------------------------------------------------------- time spans
\* a 64-bit integer: [n |-> negative, d |-> decimal digits (numbers), most significant first, no leading zero]
MaxPos == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
MaxNeg == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
LessMag(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LessD(a, b))
LessI(a, b) == IF a.n THEN (IF b.n THEN LessMag(b.d, a.d) ELSE TRUE)
               ELSE (IF b.n THEN FALSE ELSE LessMag(a.d, b.d))

\* units of 100 ns: to a duration, saturating
SpanToDur(s) ==
  IF s.d = <<>> THEN s
  ELSE LET m == s.d \o <<0, 0>> IN
       IF s.n THEN [n |-> TRUE, d |-> IF LessMag(MaxNeg, m) THEN MaxNeg ELSE m]
       ELSE [n |-> FALSE, d |-> IF LessMag(MaxPos, m) THEN MaxPos ELSE m]

\* the spans a duration may become: less than 100 ns away
IncMag(d) == LET r == Succ1(<<0>> \o d, 10) IN IF r[1] = 0 THEN Tail(r) ELSE r
Cut(d) == IF Len(d) <= 2 THEN <<>> ELSE SubSeq(d, 1, Len(d) - 2)
Whole(d) == Len(d) >= 2 /\ d[Len(d)] = 0 /\ d[Len(d) - 1] = 0
DurToSpans(x) ==
  LET tr == [n |-> x.n /\ Cut(x.d) # <<>>, d |-> Cut(x.d)] IN
  IF x.d = <<>> \/ Whole(x.d) THEN {tr}
  ELSE {tr, [n |-> x.n, d |-> IncMag(Cut(x.d))]}
=============================================================================

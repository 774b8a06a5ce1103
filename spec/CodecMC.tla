------------------------------ MODULE CodecMC ------------------------------
(* The encoding itself, over a universe of small types and values: one      *)
(* initial state per case. GEN_FILE gets the cases with their encodings, to *)
(* be replayed into the code.                                               *)
EXTENDS Codec, Json, IOUtils, SequencesExt

CONSTANT Deep   \* larger universe

T(k) == [k |-> k]
PtrOf(e) == [k |-> "ptr", e |-> e]
SliceOf(e) == [k |-> "slice", e |-> e]
MapOf(a, e) == [k |-> "map", key |-> a, e |-> e]
F(t) == [t |-> t, emb |-> FALSE]
E(t) == [t |-> t, emb |-> TRUE]
StructOf(fs) == [k |-> "struct", f |-> fs]
S1(t) == StructOf(<<F(t)>>)
S2(a, b) == StructOf(<<F(a), F(b)>>)

\* numbers by their low bytes, sign extended
Num(lo, sgn) == [i \in 1..8 |-> IF i <= Len(lo) THEN lo[i] ELSE 255 * sgn]

UVals(w) == {Zeros(8)} \cup { v \in {Num(<<1>>,0), Num(<<63>>,0), Num(<<64>>,0), Num(<<127>>,0), Num(<<128>>,0), Num(<<255,31>>,0), Num(<<0,32>>,0),
              Num(<<255,255>>,0)} : TRUE }
          \cup (IF w > 2 THEN {Num(<<0,0,1>>,0), Num(<<255,255,255,127>>,0), Num(<<255,255,255,255>>,0)} ELSE {})
          \cup (IF w > 4 THEN {Num(<<0,0,0,0,1>>,0), Num(<<255,255,255,255,255,255,255,127>>,0), Num(<<>>,1)} ELSE {})
SVals(w) == {Zeros(8)} \cup {Num(<<1>>,0), Num(<<63>>,0), Num(<<64>>,0), Num(<<>>,1), Num(<<192>>,1), Num(<<191>>,1), Num(<<255,127>>,0), Num(<<0,128>>,1)}
          \cup (IF w > 2 THEN {Num(<<255,255,255,127>>,0), Num(<<0,0,0,128>>,1)} ELSE {})
          \cup (IF w > 4 THEN {Num(<<255,255,255,255,255,255,255,127>>,0), Num(<<0,0,0,0,0,0,0,128>>,0)} ELSE {})

One == <<0,0,0,0,0,0,240,63>>

Pick(vs, z) == IF \E x \in vs : x # z THEN CHOOSE x \in vs : x # z ELSE z

RECURSIVE Vals(_, _)
\* d: 0 few values, 1 all
Vals(ty, d) ==
  CASE ty.k = "bool" -> BOOLEAN
    [] ty.k = "u8" -> IF d = 0 THEN {Zeros(8), Num(<<200>>,0)} ELSE {Num(<<b>>,0) : b \in {0,1,47,63,64,127,128,255}}
    [] ty.k = "i8" -> IF d = 0 THEN {Zeros(8), Num(<<200>>,1)} ELSE {Num(<<b>>,IF b>127 THEN 1 ELSE 0) : b \in {0,1,47,63,64,127,128,255}}
    [] ty.k \in UIntKinds -> IF d = 0 THEN {Zeros(8), Num(<<44,1>>,0)} ELSE UVals(Width(ty.k))
    [] ty.k \in SIntKinds -> IF d = 0 THEN {Zeros(8), Num(<<44,254>>,1)} ELSE SVals(Width(ty.k))
    [] ty.k \in FloatKinds -> {Zeros(8), One}
    [] ty.k = "str" -> IF d = 0 THEN {<<>>, <<65, 8364>>} ELSE {<<>>, <<0>>, <<65>>, <<8364, 97>>, <<55357, 56832>>, [i \in 1..70 |-> 12047]}
    [] ty.k \in {"guid", "nid"} -> {Zeros(16), [i \in 1..16 |-> 16*i - 1]}
    [] ty.k = "rng" -> {[i \in 1..32 |-> 8*i - 1]}
    [] ty.k = "ptr" -> {<<>>} \cup {<<v>> : v \in Vals(ty.e, d)}
    [] ty.k = "slice" -> LET vs == Vals(ty.e, 0) IN {<<>>} \cup {<<v>> : v \in vs} \cup {<<v, Pick(vs, Zero(ty.e))>> : v \in vs}
    [] ty.k = "map" -> LET ks == Vals(ty.key, 0) vs == Vals(ty.e, 0) IN
         {<<>>} \cup {<<<<a, v>>>> : a \in ks, v \in vs}
         \cup {<<<<Zero(ty.key), v>>, <<Pick(ks, Zero(ty.key)), Pick(vs, Zero(ty.e))>>>> : v \in vs}
    [] ty.k = "struct" ->
         LET fl == Flat(ty.f) IN
         CASE Len(fl) = 0 -> {<<>>}
           [] Len(fl) = 1 -> {<<v>> : v \in Vals(fl[1], d)}
           [] Len(fl) = 2 -> {<<v, w>> : v \in Vals(fl[1], d), w \in Vals(fl[2], 0)}
           [] OTHER -> {<<v, w>> \o [i \in 1..(Len(fl)-2) |-> Pick(Vals(fl[i+2], 0), Zero(fl[i+2]))]
                          : v \in Vals(fl[1], 0), w \in Vals(fl[2], 0)}

ScalarTypes == {T(k) : k \in Scalars}
SmallScalars == {T("bool"), T("i16"), T("str"), T("u8"), T("guid")}
Inner == {S2(T("i32"), T("str")), S1(T("bool")), StructOf(<<>>)}
Compound == {PtrOf(t) : t \in ScalarTypes} \cup {SliceOf(t) : t \in ScalarTypes} \cup {PtrOf(t) : t \in Inner} \cup {SliceOf(t) : t \in Inner}
            \cup {SliceOf(PtrOf(t)) : t \in Inner \cup SmallScalars} \cup {PtrOf(PtrOf(T("u16")))}
            \cup {MapOf(a, e) : a \in SmallScalars \ {T("bool")}, e \in SmallScalars \cup Inner}
            \cup {MapOf(T("i64"), SliceOf(T("u32"))), MapOf(T("str"), MapOf(T("u8"), T("str"))), PtrOf(SliceOf(T("i8"))), PtrOf(MapOf(T("u16"), T("str")))}
            \cup Inner

Types ==
  {S1(t) : t \in ScalarTypes \cup Compound}
  \cup {S2(t, T("u16")) : t \in Compound}
  \cup {S2(S1(t), T("str")) : t \in IF Deep THEN Compound ELSE SmallScalars}
  \cup {StructOf(<<E(S2(T("u8"), T("str"))), F(T("bool"))>>), StructOf(<<E(StructOf(<<E(S1(T("i8"))), F(T("u64"))>>)), F(SliceOf(T("str"))), F(T("i16"))>>),
        StructOf(<<F(PtrOf(S2(SliceOf(S1(T("str"))), T("nid")))), F(T("rng"))>>), StructOf(<<>>)}
  \cup (IF Deep THEN {S2(SliceOf(S2(a, b)), T("i8")) : a \in ScalarTypes, b \in SmallScalars} \cup {S2(MapOf(T("u32"), S2(a, b)), T("i8")) : a \in SmallScalars, b \in Compound \cap {SliceOf(t) : t \in ScalarTypes}} ELSE {})

\* versions: the new type, and the values of its additional fields
Inner1 == S2(T("i32"), T("str"))
Extras == {T("str"), T("u64"), Inner1, SliceOf(T("bool")), PtrOf(Inner1), MapOf(T("u8"), T("str"))}

\* put a versioned struct at a nesting position
Wrap(x, w) ==
  CASE w = 0 -> x
    [] w = 1 -> S2(x, T("u16"))
    [] w = 2 -> S2(SliceOf(x), T("u16"))
    [] w = 3 -> S2(PtrOf(x), T("u16"))
    [] w = 4 -> S2(MapOf(T("u8"), x), T("u16"))
    [] w = 5 -> S2(SliceOf(PtrOf(S1(x))), T("u16"))
    [] w = 6 -> StructOf(<<E(S1(T("u8"))), F(x), F(T("u16"))>>)

VersionPairs == { <<Wrap(S2(T("i16"), e), w), Wrap(S1(T("i16")), w)>> : e \in Extras, w \in 0..6 }
            \cup { <<Wrap(S1(T("i16")), w), Wrap(S2(T("i16"), e), w)>> : e \in Extras, w \in 0..6 }
            \cup { <<Wrap(S2(S2(T("i16"), e), e), 2), Wrap(S1(S1(T("i16"))), 2)>> : e \in Extras }

\* cases of one property only
For(ps) == IOEnv.PROP \in ps

VARIABLES c, st
vars == <<c, st>>

TypeSeq == SetToSeq(Types)
IntCases ==
  { [op |-> "int", k |-> k, v |-> Num(<<lo, hi>>, IF k = "i16" THEN hi \div 128 ELSE 0)] : k \in {"u16", "i16"}, lo \in 0..255, hi \in IF Deep THEN 0..255 ELSE {0,1,31,32,63,64,127,128,191,192,223,224,255} }
  \cup { [op |-> "int", k |-> k, v |-> [i \in 1..8 |-> IF i < j THEN a ELSE IF i = j THEN b ELSE z]] :
           k \in {"u64", "i64"}, j \in 1..8, a \in {0, 255}, b \in {0,1,2,3,4,7,8,15,16,31,32,63,64,127,128,129,192,254,255}, z \in {0, 255} }
\* every group sequence that 2 bytes can have, read as 16 bit (3 groups are "long" or "big")
GroupCases == { [op |-> "grp", k |-> k, b |-> <<a, b, d>>] : k \in {"u16", "i16"}, a \in {1,63,64,127,128,129,131,132,191,192,252,253,255}, b \in IF Deep THEN 0..255 ELSE {0,1,63,64,127,128,129,191,192,255}, d \in {0,1,64,127,128,255} }

Cases ==
  \/ For({"S01", "S03"}) /\ \E i \in 1..Len(TypeSeq) : LET t == TypeSeq[i] IN \E v \in Vals(t, 1) : c = [op |-> "val", ty |-> t, v |-> v]
  \/ For({"S02"}) /\ \E p \in VersionPairs : \E v \in Vals(p[1], 0) : c = [op |-> "ver", tn |-> p[1], to |-> p[2], v |-> v]
  \/ For({"S04"}) /\ c \in IntCases
  \/ For({"S04"}) /\ c \in GroupCases
\* the cases are judged in the second state, by all workers
Init == Cases /\ st = 0
Next == st = 0 /\ st' = 1 /\ c' = c
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------- properties
RoundTrip ==
  For({"S01"}) /\ st = 1 /\ c.op = "val" => \A b \in {Enc(c.ty, c.v)} : \A d \in {DecAll(c.ty, b)} :
    /\ \A i \in 1..Len(b) : b[i] \in Byte
    /\ d.k = "ok" /\ Same(c.ty, d.v, c.v)
    /\ Dec(c.ty, b \o <<0, 63>>, 1) = d      \* self delimiting

\* no strict prefix of an encoding is one
PrefixFree ==
  For({"S03"}) /\ st = 1 /\ c.op = "val" => \A b \in {Enc(c.ty, c.v)} :
    \A x \in {SubSeq(b, 1, n) : n \in {m \in 0..(Len(b) - 1) : m < 40 \/ m > Len(b) - 4}} : Dec(c.ty, x, 1).k # "ok"

\* a scalar is only read from its own family of type bytes
TypeByte ==
  st = 1 /\ c.op = "val" /\ Len(c.ty.f) = 1 /\ c.ty.f[1].t.k \in Scalars =>
    \A b \in {Enc(c.ty, c.v)} :
    \A m \in 0..63 : m % 16 \notin Family(c.ty.f[1].t.k) => DecAll(c.ty, [b EXCEPT ![11] = m]).k # "ok"

Versions ==
  st = 1 /\ c.op = "ver" => \A b \in {Enc(c.tn, c.v)} : \A d \in {DecX(c.to, b, 1, TRUE)} :
    d.k = "ok" /\ d.p = Len(b) + 1 /\ Same(c.to, d.v, Project(c.to, c.tn, c.v))

IntExact ==
  st = 1 /\ c.op = "int" => LET s == c.k \in SIntKinds  e == Compress(c.v, s)  d == ReadCompressed(e, 1, Width(c.k), s) IN
    /\ d.k = "ok" /\ d.canon /\ d.v = c.v /\ d.p = Len(e) + 1
    /\ Len(e) <= MaxGroups(Width(c.k))
    \* minimal: with its first group removed it means something else
    /\ Len(e) > 1 => LET r == ReadCompressed(Tail(e), 1, Width(c.k), s) IN r.k # "ok" \/ r.v # c.v

Groups ==
  st = 1 /\ c.op = "grp" => LET d == ReadCompressed(c.b, 1, 2, c.k = "i16") IN
    /\ d.k = "ok" /\ d.canon => \E n \in 1..3 : SubSeq(c.b, 1, n) = Compress(d.v, c.k = "i16")
    /\ d.k = "ok" => LET top == IF c.k = "i16" THEN SignOf(SubSeq(d.v, 1, 2)) * 255 ELSE 0 IN \A i \in 3..8 : d.v[i] = top
    /\ (c.b[1] >= 128 /\ c.b[2] >= 128 /\ c.b[3] >= 128) <=> d.k = "long"

ASSUME IOEnv.GEN_FILE = "" \/
  ndJsonSerialize(IOEnv.GEN_FILE, Concat([i \in 1..Len(TypeSeq) |->
    LET t == TypeSeq[i]
        vs == SetToSeq(Vals(t, 1))
    IN [j \in 1..Len(vs) |-> [ty |-> t, v |-> vs[j], b |-> Enc(t, vs[j])]]]))
=============================================================================

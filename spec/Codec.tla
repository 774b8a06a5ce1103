------------------------------- MODULE Codec -------------------------------
(* The Service Fabric object encoding: exact encoding of every supported    *)
(* value, and what a decoder has to do with a byte string ("ok": the value, *)
(* "rej": it must refuse, "free": outside what is specified).                *)
(*                                                                          *)
(* A type is a record with field k:                                         *)
(*   bool u8 i8 u16 i16 u32 i32 u64 i64 f32 f64 str guid nid rng            *)
(*   ptr(e) slice(e) map(key,e) struct(f: sequence of [t, emb])             *)
(* A value: BOOLEAN; 8 bytes for numbers; UTF-16 units for strings; 16 / 32 *)
(* bytes for guid, nid / rng; <<>> or <<v>> for pointers; sequences for     *)
(* slices; sequences of <<k, v>> for maps; for structs the sequence of the  *)
(* values of all its fields, embedded ones in place.                        *)
EXTENDS Bytes

EmptyBit == 64
ArrayBit == 128

UIntKinds == {"u16", "u32", "u64"}
SIntKinds == {"i16", "i32", "i64"}
FloatKinds == {"f32", "f64"}
CustomKinds == {"guid", "nid", "rng"}
Scalars == {"bool", "u8", "i8", "str"} \cup UIntKinds \cup SIntKinds \cup FloatKinds \cup CustomKinds

Base(k) ==
  CASE k = "bool" -> 2 [] k = "i8" -> 3 [] k = "u8" -> 4
    [] k = "i16" -> 5 [] k = "u16" -> 6 [] k = "i32" -> 7 [] k = "u32" -> 8
    [] k = "i64" -> 9 [] k = "u64" -> 10 [] k \in FloatKinds -> 11
    [] k = "guid" -> 12 [] k = "str" -> 13 [] k = "ptr" -> 1
    [] k \in {"struct", "nid", "rng"} -> 0

Width(k) == CASE k \in {"u16","i16"} -> 2 [] k \in {"u32","i32"} -> 4 [] OTHER -> 8

ScopeBegin == 31
ScopeEnd == 47
ObjectEnd == 63

\* the kinds the go side represents as structs
IsStructKind(k) == k \in {"struct"} \cup CustomKinds

\* fields of a struct, those of embedded structs in place
RECURSIVE Flat(_)
Flat(f) ==
  Concat([i \in 1..Len(f) |->
    IF f[i].emb /\ f[i].t.k = "struct" THEN Flat(f[i].t.f) ELSE <<f[i].t>>])

\* entries of maps are encoded like this struct
PairType(ty) == [k |-> "struct", f |-> <<[t |-> ty.key, emb |-> FALSE], [t |-> ty.e, emb |-> FALSE]>>]

CompressLen(n) == Compress(LE(n, 8), FALSE)

\* slices and pointers of these cannot be encoded
SliceElemOk(k) == k \in Scalars \cup {"struct", "ptr"}

RECURSIVE Zero(_)
Zero(ty) ==
  CASE ty.k = "bool" -> FALSE
    [] ty.k \in {"u8","i8"} \cup UIntKinds \cup SIntKinds \cup FloatKinds -> Zeros(8)
    [] ty.k \in {"guid", "nid"} -> Zeros(16)
    [] ty.k = "rng" -> Zeros(32)
    [] ty.k = "struct" -> LET fl == Flat(ty.f) IN [i \in 1..Len(fl) |-> Zero(fl[i])]
    [] OTHER -> <<>>

\* ------------------------------------------------------------ encoding
SliceMeta(e) == IF e.k \in {"str", "ptr"} THEN 8 ELSE Base(IF IsStructKind(e.k) THEN "struct" ELSE e.k) + ArrayBit

NidEnc(b) == <<4 + ArrayBit, 16>> \o b

RECURSIVE Enc(_, _)
Enc(ty, v) ==
  CASE ty.k = "bool" -> IF v THEN <<EmptyBit + 2>> ELSE <<EmptyBit + 50>>
    [] ty.k \in {"u8", "i8"} ->
         IF IsZeroBytes(v) THEN <<EmptyBit + Base(ty.k)>> ELSE <<Base(ty.k), v[1]>>
    [] ty.k \in UIntKinds ->
         IF IsZeroBytes(v) THEN <<EmptyBit + Base(ty.k)>> ELSE <<Base(ty.k)>> \o Compress(v, FALSE)
    [] ty.k \in SIntKinds ->
         IF IsZeroBytes(v) THEN <<EmptyBit + Base(ty.k)>> ELSE <<Base(ty.k)>> \o Compress(v, TRUE)
    [] ty.k \in FloatKinds ->
         IF IsZeroBytes(v) THEN <<EmptyBit + 11>> ELSE <<11>> \o v
    [] ty.k = "str" ->
         IF v = <<>> THEN <<EmptyBit + ArrayBit + 13>>
         ELSE <<ArrayBit + 13>> \o CompressLen(Len(v))
              \o [i \in 1..(2*Len(v)) |-> IF i % 2 = 1 THEN v[(i+1) \div 2] % 256 ELSE v[i \div 2] \div 256]
    [] ty.k = "guid" -> IF IsZeroBytes(v) THEN <<EmptyBit + 12>> ELSE <<12>> \o v
    [] ty.k = "nid" -> NidEnc(v)
    [] ty.k = "rng" -> NidEnc(SubSeq(v, 1, 16)) \o NidEnc(SubSeq(v, 17, 32))
    [] ty.k = "ptr" -> IF v = <<>> THEN <<EmptyBit + 1>> ELSE <<1>> \o Enc(ty.e, v[1])
    [] ty.k = "struct" ->
         LET fl == Flat(ty.f)
             body == Concat([i \in 1..Len(fl) |-> Enc(fl[i], v[i])])
         IN <<0>> \o LE(Len(body) + 11, 4) \o <<0, 0, 0, 0, ScopeBegin>> \o body \o <<ScopeEnd, ObjectEnd>>
    [] ty.k = "slice" ->
         IF v = <<>> THEN <<EmptyBit + SliceMeta(ty.e)>>
         ELSE <<SliceMeta(ty.e)>> \o CompressLen(Len(v)) \o Concat([i \in 1..Len(v) |-> Enc(ty.e, v[i])])
    [] ty.k = "map" ->
         IF v = <<>> THEN <<EmptyBit + ArrayBit>>
         ELSE <<ArrayBit>> \o CompressLen(Len(v))
              \o Concat([i \in 1..Len(v) |-> Enc(PairType(ty), v[i])])

\* equality up to the order of maps; 0 and -0 are equal
RECURSIVE Norm(_, _)
Norm(ty, v) ==
  CASE ty.k = "ptr" -> IF v = <<>> THEN <<>> ELSE <<Norm(ty.e, v[1])>>
    [] ty.k = "slice" -> [i \in 1..Len(v) |-> Norm(ty.e, v[i])]
    [] ty.k = "struct" -> LET fl == Flat(ty.f) IN [i \in 1..Len(fl) |-> Norm(fl[i], v[i])]
    [] ty.k = "map" -> <<Len(v), { <<Norm(ty.key, v[i][1]), Norm(ty.e, v[i][2])>> : i \in 1..Len(v) }>>
    [] ty.k \in FloatKinds -> IF v = <<0,0,0,0,0,0,0,128>> THEN Zeros(8) ELSE v
    [] OTHER -> v

Same(ty, a, b) == Norm(ty, a) = Norm(ty, b)

\* ------------------------------------------------------------ decoding
Ok(v, p) == [k |-> "ok", v |-> v, p |-> p]
Rej == [k |-> "rej", v |-> <<>>, p |-> 0]
Free == [k |-> "free", v |-> <<>>, p |-> 0]
\* sound so far, and over too early
End == [k |-> "end", v |-> <<>>, p |-> 0]

Has(b, p, n) == p + n - 1 <= Len(b)

\* families of the base types in the low four bits
Family(k) ==
  CASE k = "bool" -> {2} [] k = "i8" -> {3} [] k = "u8" -> {4}
    [] k \in SIntKinds -> {5, 7, 9} [] k \in UIntKinds -> {6, 8, 10}
    [] k \in FloatKinds -> {11} [] k = "guid" -> {12} [] k = "str" -> {13} [] k \in {"nid","rng"} -> {4}

IsEmpty(m) == (m \div 64) % 2 = 1

\* 8 bytes of a double that a float32 holds exactly (no NaN)
F32Exact(b) ==
  LET e == (b[8] % 128) * 16 + b[7] \div 16 IN
  \/ IsZeroBytes(SubSeq(b, 1, 7)) /\ b[8] \in {0, 128}
  \/ b[1] = 0 /\ b[2] = 0 /\ b[3] = 0 /\ b[4] % 32 = 0 /\ e >= 897 /\ e <= 1150
F64Plain(b) == ~((b[8] % 128) = 127 /\ b[7] >= 240)

\* a string decodes to itself unless it has half of a surrogate pair
RECURSIVE PlainUnits(_, _)
PlainUnits(u, i) ==
  IF i > Len(u) THEN TRUE
  ELSE IF u[i] \div 1024 = 54
       THEN i < Len(u) /\ u[i+1] \div 1024 = 55 /\ PlainUnits(u, i + 2)
       ELSE u[i] \div 1024 # 55 /\ PlainUnits(u, i + 1)

DecNid(b, p) ==
  IF ~Has(b, p, 1) THEN End
  ELSE IF b[p] # 132
       THEN IF IsEmpty(b[p]) \/ b[p] % 16 = 4 THEN Free ELSE Rej
       ELSE IF Has(b, p + 1, 1) /\ b[p+1] # 16 THEN Free
            ELSE IF ~Has(b, p + 1, 17) THEN End
            ELSE Ok(SubSeq(b, p + 2, p + 17), p + 18)

\* lax: fields of a newer version, at the end of an object, are skipped
RECURSIVE DecX(_, _, _, _)
RECURSIVE DecFields(_, _, _, _, _, _)
RECURSIVE DecElems(_, _, _, _, _, _)

\* elements of a slice
DecElems(e, b, p, n, acc, lax) ==
  IF n = 0 THEN Ok(acc, p)
  ELSE LET d == DecX(e, b, p, lax) IN
       IF d.k # "ok" THEN d ELSE DecElems(e, b, d.p, n - 1, Append(acc, d.v), lax)

\* fields fl from the i-th on. A scope that ends early is an older version
DecFields(fl, b, p, i, acc, lax) ==
  IF i > Len(fl) THEN Ok(acc, p)
  ELSE IF ~Has(b, p, 1) THEN End
  ELSE IF b[p] = ScopeEnd
       THEN Ok(acc \o [j \in 1..(Len(fl) - i + 1) |-> Zero(fl[i + j - 1])], p)
  ELSE LET d == DecX(fl[i], b, p, lax) IN
       IF d.k # "ok" THEN d ELSE DecFields(fl, b, d.p, i + 1, Append(acc, d.v), lax)

DecX(ty, b, p, lax) ==
  IF ~Has(b, p, 1) THEN End
  ELSE LET m == b[p] IN
  CASE ty.k \in {"nid"} -> DecNid(b, p)
    [] ty.k = "rng" ->
         LET d1 == DecNid(b, p) IN
         IF d1.k # "ok" THEN d1
         ELSE LET d2 == DecNid(b, d1.p) IN
              IF d2.k # "ok" THEN d2 ELSE Ok(d1.v \o d2.v, d2.p)
    [] ty.k = "bool" ->
         IF m = 66 THEN Ok(TRUE, p + 1) ELSE IF m = 114 THEN Ok(FALSE, p + 1)
         ELSE IF IsEmpty(m) \/ m % 16 = 2 THEN Free ELSE Rej
    [] ty.k \in Scalars \ {"bool", "nid", "rng"} /\ IsEmpty(m) ->
         IF m = EmptyBit + (IF ty.k = "str" THEN ArrayBit + 13 ELSE Base(ty.k))
         THEN Ok(Zero(ty), p + 1) ELSE Free
    [] ty.k \in Scalars \ {"bool", "nid", "rng"} /\ ~IsEmpty(m) /\ m % 16 \notin Family(ty.k) -> Rej
    [] ty.k \in {"u8", "i8"} /\ ~IsEmpty(m) /\ m % 16 \in Family(ty.k) ->
         IF m # Base(ty.k) THEN Free ELSE IF ~Has(b, p + 1, 1) THEN End
         ELSE Ok([j \in 1..8 |-> IF j = 1 THEN b[p+1] ELSE IF ty.k = "i8" /\ b[p+1] >= 128 THEN 255 ELSE 0], p + 2)
    [] ty.k \in UIntKinds \cup SIntKinds /\ ~IsEmpty(m) /\ m % 16 \in Family(ty.k) ->
         IF m # Base(ty.k) THEN Free
         ELSE LET d == ReadCompressed(b, p + 1, Width(ty.k), ty.k \in SIntKinds) IN
              CASE d.k = "end" -> End
                [] d.k \in {"long", "big"} -> Rej
                [] OTHER -> IF d.canon THEN Ok(d.v, d.p) ELSE Free   \* not the shortest form, or odd
    [] ty.k \in FloatKinds /\ ~IsEmpty(m) /\ m % 16 = 11 ->
         IF m # 11 THEN Free ELSE IF ~Has(b, p + 1, 8) THEN End
         ELSE LET v == SubSeq(b, p + 1, p + 8) IN
              IF (IF ty.k = "f32" THEN F32Exact(v) ELSE F64Plain(v)) THEN Ok(v, p + 9) ELSE Free
    [] ty.k = "guid" /\ ~IsEmpty(m) /\ m % 16 = 12 ->
         IF m # 12 THEN Free ELSE IF ~Has(b, p + 1, 16) THEN End ELSE Ok(SubSeq(b, p + 1, p + 16), p + 17)
    [] ty.k = "str" /\ ~IsEmpty(m) /\ m % 16 = 13 ->
         IF m # ArrayBit + 13 THEN Free
         ELSE LET d == ReadCompressed(b, p + 1, 4, FALSE)
                  n == NatOf(d.v) IN
              IF d.k \in {"long", "big"} THEN Rej
              ELSE IF d.k = "end" THEN End
              ELSE IF ~d.canon \/ n = 0 THEN Free
              ELSE IF n < 0 \/ n > Len(b) THEN End
              ELSE IF ~Has(b, d.p, 2 * n) THEN End
              ELSE LET u == [i \in 1..n |-> b[d.p + 2*i - 2] + 256 * b[d.p + 2*i - 1]] IN
                   IF PlainUnits(u, 1) THEN Ok(u, d.p + 2 * n) ELSE Free
    [] ty.k = "ptr" ->
         IF m = EmptyBit + 1 THEN Ok(<<>>, p + 1)
         ELSE IF m # 1 THEN Free
         ELSE LET d == DecX(ty.e, b, p + 1, lax) IN IF d.k # "ok" THEN d ELSE Ok(<<d.v>>, d.p)
    [] ty.k = "struct" ->
         IF m # 0 THEN Free ELSE IF ~Has(b, p + 1, 9) THEN End
         ELSE LET hp == p + 1
                  size == NatOf(SubSeq(b, hp, hp + 3))
                  flag == b[hp + 4]
                  ti == ReadCompressed(b, hp + 8, 4, FALSE)
                  tn == NatOf(ti.v)
              IN IF flag \notin {0, 1} \/ SubSeq(b, hp + 5, hp + 7) # <<0,0,0>> \/ size < 0 THEN Free
                 ELSE IF flag = 1 /\ ti.k = "end" THEN End
                 ELSE IF flag = 1 /\ (ti.k # "ok" \/ ~ti.canon \/ tn = 0) THEN Free
                 ELSE IF flag = 1 /\ (tn < 0 \/ tn > Len(b)) THEN End
                 ELSE LET sb == IF flag = 1 THEN ti.p + tn ELSE hp + 8 IN
                      IF ~Has(b, sb, 1) THEN End
                      ELSE IF b[sb] # ScopeBegin THEN Free
                      ELSE LET d0 == DecFields(Flat(ty.f), b, sb + 1, 1, <<>>, lax)
                               d == IF lax /\ d0.k = "ok" /\ d0.p <= hp + size - 2 THEN Ok(d0.v, hp + size - 2) ELSE d0 IN
                           IF d.k # "ok" THEN d
                           ELSE IF d.p # hp + size - 2 THEN Free
                           ELSE IF ~Has(b, d.p, 1) \/ (b[d.p] = ScopeEnd /\ ~Has(b, d.p, 2)) THEN End
                           ELSE IF ~Has(b, d.p, 2) THEN Free
                           ELSE IF b[d.p] = ScopeEnd /\ b[d.p + 1] = ObjectEnd
                                THEN Ok(d.v, d.p + 2) ELSE Free
    [] ty.k = "slice" ->
         IF m = EmptyBit + SliceMeta(ty.e) THEN Ok(<<>>, p + 1)
         ELSE IF m # SliceMeta(ty.e) THEN Free
         ELSE LET d == ReadCompressed(b, p + 1, 4, FALSE)
                  n == NatOf(d.v) IN
              IF d.k \in {"long", "big"} THEN Rej
              ELSE IF d.k = "end" THEN End
              ELSE IF ~d.canon \/ n = 0 THEN Free
              ELSE IF n < 0 \/ n > Len(b) THEN End
              ELSE DecElems(ty.e, b, d.p, n, <<>>, lax)
    [] ty.k = "map" ->
         IF m = EmptyBit + ArrayBit THEN Ok(<<>>, p + 1)
         ELSE IF m # ArrayBit THEN Free
         ELSE LET d == ReadCompressed(b, p + 1, 4, FALSE)
                  n == NatOf(d.v) IN
              IF d.k \in {"long", "big"} THEN Rej
              ELSE IF d.k = "end" THEN End
              ELSE IF ~d.canon \/ n = 0 THEN Free
              ELSE IF n < 0 \/ n > Len(b) THEN End
              ELSE LET es == DecElems(PairType(ty), b, d.p, n, <<>>, lax) IN
                   IF es.k = "ok" /\ Cardinality({ Norm(ty.key, es.v[i][1]) : i \in 1..n }) # n
                   THEN Free ELSE es

Dec(ty, b, p) == DecX(ty, b, p, FALSE)

\* the whole input is exactly one encoded value
DecAll(ty, b) ==
  LET d == Dec(ty, b, 1) IN
  IF d.k = "ok" /\ d.p # Len(b) + 1 THEN Free ELSE d

\* ------------------------------------------------------------ versions
\* what a reader of type o sees of a value v of type n. They are the same type
\* except that structs may have more fields at their end in either
RECURSIVE Project(_, _, _)
Project(o, n, v) ==
  CASE o.k = "struct" ->
         LET fo == Flat(o.f)
             fn == Flat(n.f)
         IN [i \in 1..Len(fo) |-> IF i <= Len(fn) THEN Project(fo[i], fn[i], v[i]) ELSE Zero(fo[i])]
    [] o.k = "ptr" -> IF v = <<>> THEN <<>> ELSE <<Project(o.e, n.e, v[1])>>
    [] o.k = "slice" -> [i \in 1..Len(v) |-> Project(o.e, n.e, v[i])]
    [] o.k = "map" -> [i \in 1..Len(v) |-> <<v[i][1], Project(o.e, n.e, v[i][2])>>]
    [] OTHER -> v
=============================================================================

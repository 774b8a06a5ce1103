----------------------------- MODULE NamingGen -----------------------------
(* Scripts for the driver: what applications and gateway do. A request is on *)
(* the wire once the client came to rest; ops: calls begun, wire: what each   *)
(* request on the wire is, open: which wait for a reply                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, IOUtils

CONSTANT Len0
VARIABLE x

P == IOEnv.PROP

Start == [ops |-> 0, wire |-> <<>>, open |-> {}, closed |-> FALSE, used |-> [k \in {"note", "call", "cancel", "close"} |-> 0]]
Use(s, k) == [s EXCEPT !.used[k] = @ + 1]

Call(s, k) == LET t == Use([s EXCEPT !.ops = @ + 1], "call") IN
  IF s.closed THEN t ELSE [t EXCEPT !.wire = Append(@, IF k = "reg" THEN "conn" ELSE k), !.open = @ \cup {Len(s.wire) + 1}]

Good == 0
Kinds(w) == IF w = "app" THEN {0, 5, 8, 9, 12, 13} ELSE IF w = "ping" THEN {0, 5, 8, 9, 10, 3} ELSE {0, 8, 9}

Answer(s, n, k) ==
  LET t == [s EXCEPT !.open = @ \ {n}] IN
  IF n \in s.open /\ s.wire[n] = "conn" /\ k = Good THEN [t EXCEPT !.wire = Append(@, "reg"), !.open = @ \cup {Len(s.wire) + 1}] ELSE t

Str(op, a, b) == op \o ":" \o ToString(a) \o ";" \o ToString(b)

Moves(s) ==
  (IF s.used["call"] < 3
   THEN { <<Str(k, s.ops % 4, s.ops % 4), Call(s, k)>> : k \in (CASE P = "N01" -> {"ping", "app"} [] P = "N02" -> {"ping"} [] OTHER -> {"reg"}) } ELSE {})
  \cup UNION { { <<Str("reply", n, k), Answer(s, n, k)>> : k \in Kinds(s.wire[n]) } : n \in 1..Len(s.wire) }
  \cup (IF s.used["note"] < (IF P = "N02" THEN 3 ELSE 1) THEN { <<Str("note", a, 0), Use(s, "note")>> : a \in {0, 2} } \cup (IF P = "N02" THEN { <<Str("note", 0, b), Use(s, "note")>> : b \in {1, 8, 5} } ELSE {}) ELSE {})
  \cup (IF s.used["cancel"] < 1 /\ s.ops > 0 THEN { <<Str("cancel", n, 0), Use(s, "cancel")>> : n \in 1..s.ops } ELSE {})
  \cup (IF s.used["close"] < 1 THEN { <<"close", [Use(s, "close") EXCEPT !.closed = TRUE]>> } ELSE {})

RECURSIVE Paths(_, _)
Paths(n, s) == IF n = 0 THEN { <<>> } ELSE UNION { { <<m[1]>> \o q : q \in Paths(n - 1, m[2]) } : m \in Moves(s) }

ASSUME IOEnv.GEN_FILE = "" \/ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(Paths(Len0, Start)))
ASSUME PrintT(<<"CASES", Cardinality(Paths(Len0, Start))>>)

Init == x = 0
Spec == Init /\ [][UNCHANGED x]_x
=============================================================================

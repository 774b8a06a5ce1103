------------------------------ MODULE LeaseGen ------------------------------
(* Scripts for the driver: what applications and peers of a lease agent do.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, IOUtils

CONSTANT Len0
VARIABLE x

P == IOEnv.PROP
Start == [est |-> 0, op |-> 1, pings |-> {}, gone |-> {}, closed |-> FALSE, used |-> [k \in {"est", "ping", "pong", "cancel", "close", "bad", "in"} |-> 0]]
Use(s, k) == [s EXCEPT !.used[k] = @ + 1, !.op = IF k \in {"est", "ping"} THEN @ + 1 ELSE @]
Str(op, a, b) == op \o ":" \o ToString(a) \o ";" \o ToString(b)
Up(k) == CASE k = "est" -> 3 [] k = "ping" -> 3 [] k = "pong" -> 3 [] k = "bad" -> IF P = "L04" THEN 2 ELSE 0 [] k = "in" -> IF P = "L04" THEN 1 ELSE 0 [] OTHER -> 1
May(s, k) == s.used[k] < Up(k)

Moves(s) ==
  (IF May(s, "est") THEN { <<Str("est", a, 0), [Use(s, "est") EXCEPT !.est = IF s.closed THEN @ ELSE @ + 1]>> : a \in IF s.est = 0 THEN {0} ELSE {0, 1} } ELSE {})
  \cup (IF May(s, "ping") THEN { <<Str("ping", n, 0), [Use(s, "ping") EXCEPT !.pings = @ \cup {s.op + 1}]>> : n \in 1..s.est } ELSE {})
  \cup (IF May(s, "pong") THEN { <<Str("pong", a, 0), Use(s, "pong")>> : a \in IF s.est < 2 THEN {0} ELSE {0, 1} } ELSE {})
  \cup (IF May(s, "bad") THEN { <<Str("pong", 0, k), Use(s, "bad")>> : k \in 8..13 } ELSE {})
  \cup (IF May(s, "in") THEN { <<"in", Use(s, "in")>> } ELSE {})
  \cup (IF May(s, "cancel") THEN { <<Str("cancel", n, 0), Use(s, "cancel")>> : n \in s.pings } ELSE {})
  \cup (IF May(s, "close") THEN { <<Str("sclose", n, 0), Use(s, "close")>> : n \in 1..s.est } \cup { <<"aclose", [Use(s, "close") EXCEPT !.closed = TRUE]>> } ELSE {})

RECURSIVE Paths(_, _)
Paths(n, s) == IF n = 0 THEN { <<>> } ELSE UNION { { <<m[1]>> \o q : q \in Paths(n - 1, m[2]) } : m \in Moves(s) }
All == { <<"est:0;0">> \o q : q \in Paths(Len0, [Use(Start, "est") EXCEPT !.est = 1]) }

ASSUME IOEnv.GEN_FILE = "" \/ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(All))
ASSUME PrintT(<<"CASES", Cardinality(All)>>)

Init == x = 0
Spec == Init /\ [][UNCHANGED x]_x
=============================================================================

----------------------------- MODULE ServerGen ------------------------------
(* Scripts for the driver: what the peers of a server and its callbacks do,  *)
(* on two connections.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, IOUtils

CONSTANT Len0
VARIABLE x

Start == [n |-> 0, used |-> [k \in {"in", "msg", "bad", "close", "gate", "block", "cb", "send", "srv"} |-> 0], seen |-> {}, gated |-> {}, blocked |-> {}]
Use(s, k) == [s EXCEPT !.used[k] = @ + 1]
Str(op, a, b) == op \o ":" \o ToString(a) \o ";" \o ToString(b)
Up(k) == CASE k = "in" -> 2 [] k = "msg" -> 3 [] OTHER -> 1
May(s, k) == s.used[k] < Up(k)
Cs(s) == 0..(s.n - 1)

Moves(s) ==
  (IF May(s, "in") THEN { <<Str("in", 0, 0), [Use(s, "in") EXCEPT !.n = @ + 1]>> } ELSE {})
  \cup (IF May(s, "msg") THEN { <<Str("msg", c, 0), [Use(s, "msg") EXCEPT !.seen = @ \cup {c}]>> : c \in Cs(s) } ELSE {})
  \cup (IF May(s, "bad") THEN { <<Str(o, c, 0), Use(s, "bad")>> : c \in Cs(s), o \in {"bad", "eof", "cut", "werr"} } ELSE {})
  \cup (IF May(s, "send") THEN { <<Str(o, c, 0), Use(s, "send")>> : c \in s.seen, o \in {"send", "req", "ping"} } ELSE {})
  \cup (IF May(s, "close") THEN { <<Str("close", c, 0), Use(s, "close")>> : c \in s.seen } ELSE {})
  \cup (IF May(s, "gate") THEN { <<Str("gate", c, 0), Use(s, "gate")>> : c \in Cs(s) } ELSE {})
  \cup (IF May(s, "block") THEN { <<Str("block", c, 0), Use(s, "block")>> : c \in Cs(s) } ELSE {})
  \cup (IF May(s, "cb") THEN { <<Str(o, c, 0), Use(s, "cb")>> : c \in Cs(s), o \in {"cbsend", "cbreq", "cbclose"} } ELSE {})
  \cup (IF May(s, "srv") THEN { <<o, Use(s, "srv")>> : o \in {"sclose", "temp", "fatal"} } ELSE {})

RECURSIVE Paths(_, _)
Paths(n, s) == IF n = 0 THEN { <<>> } ELSE UNION { { <<m[1]>> \o q : q \in Paths(n - 1, m[2]) } : m \in Moves(s) }
All == { <<"in:0;0">> \o q : q \in Paths(Len0, [Use(Start, "in") EXCEPT !.n = 1]) }

ASSUME IOEnv.GEN_FILE = "" \/ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(All))
ASSUME PrintT(<<"CASES", Cardinality(All)>>)

Init == x = 0
Spec == Init /\ [][UNCHANGED x]_x
=============================================================================

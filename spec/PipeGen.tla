------------------------------ MODULE PipeGen -------------------------------
(* Scripts for the driver: what the two ends of one piped connection and the *)
(* filter do.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, IOUtils

CONSTANT Len0
VARIABLE x

Kinds == [msg |-> {"m", "body", "head"}, drop |-> {"drop"}, odd |-> {"odd", "nohc", "nobc"}, end |-> {"bad", "eof", "cut", "werr"}, gate |-> {"gate"}, ungate |-> {"ungate"}, block |-> {"block"}, unblock |-> {"unblock"}]
Up(k) == CASE k = "msg" -> 3 [] OTHER -> 1
Sides == {"", "U"}
Start == [used |-> [k \in DOMAIN Kinds |-> 0], done |-> {}]
Moves(s) ==
  UNION { { <<op \o d \o ":0;" \o (IF op = "cut" THEN "30" ELSE "0"), [used |-> [s.used EXCEPT ![k] = @ + 1], done |-> s.done \cup {<<op, d>>}]>> : op \in Kinds[k], d \in Sides }
          : k \in { j \in DOMAIN Kinds : s.used[j] < Up(j) } }
\* nothing is opened again that is not shut
Sane(s, m) == \A d \in Sides : /\ (m[1] = "ungate" \o d \o ":0;0" => <<"gate", d>> \in s.done)
                               /\ (m[1] = "unblock" \o d \o ":0;0" => <<"block", d>> \in s.done)

RECURSIVE Paths(_, _)
Paths(n, s) == IF n = 0 THEN { <<>> } ELSE UNION { { <<m[1]>> \o q : q \in Paths(n - 1, m[2]) } : m \in { y \in Moves(s) : Sane(s, y) } }
All == Paths(Len0, Start)

ASSUME IOEnv.GEN_FILE = "" \/ ndJsonSerialize(IOEnv.GEN_FILE, SetToSeq(All))
ASSUME PrintT(<<"CASES", Cardinality(All)>>)

Init == x = 0
Spec == Init /\ [][UNCHANGED x]_x
=============================================================================

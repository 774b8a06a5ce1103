---------------------------- MODULE LeaseWireMC -----------------------------
(* What LeaseWire says about messages agents build: they name their endpoint *)
(* and no other, no truncation of them is a message, however a stream is cut *)
(* it says the same, and what PingOf takes for a ping Meaning takes for a    *)
(* request.                                                                  *)
EXTENDS LeaseWire

CONSTANT Deep
VARIABLES m, cut

Hosts == { <<>>, <<49>>, <<58, 49>>, <<55357, 56832>> } \cup (IF Deep THEN { <<104, 228>>, <<49, 46, 49>>, <<37>> } ELSE {})
Ports == { 0, 258, 65535 } \cup (IF Deep THEN { 9, 80, 1026 } ELSE {})
Some(n) == [i \in 1..9 |-> IF i = n THEN LE(1, 4) \o LE(2, 4) \o <<65, 0>> \o LE(0, 4) ELSE Zeros(4)]
Kinds == { PingRequest, PingResponse }
Msgs == { [t |-> t, host |-> x, port |-> p, l |-> l] : t \in Kinds, x \in Hosts, p \in Ports, l \in {0, 1, 9} }
BodyOf(x) == Message(x.t, LE(7, 8), LE(9, 8), LE(30000, 8), IF x.l = 0 THEN NoLists ELSE Some(x.l), x.host, x.port)

Init == m \in Msgs /\ cut = 0
Next == cut = 0 /\ cut' \in 1..(Len(BodyOf(m)) + 12) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, cut>>

Ep(x) == HostPort(x.host, x.port)
Means == LET d == Meaning(BodyOf(m)) IN d.k = (IF m.t = PingResponse THEN "pong" ELSE "none") /\ ~d.lax /\ d.ep = Ep(m) /\ d.rem = LE(9, 8)
Distinct == \A x \in Hosts, p \in Ports : Ep([host |-> x, port |-> p]) = Ep(m) => x = m.host /\ p = m.port
Cfg == [host |-> m.host, port |-> m.port, exp |-> LE(30000, 8), susp |-> Zeros(4), arb |-> Zeros(4)]
Pings == PingOf(Cfg, Frame(MessageFrame, BodyOf(m))).ok = (m.t = PingRequest /\ m.l = 0)
Other == ~PingOf([Cfg EXCEPT !.port = 3], Frame(MessageFrame, BodyOf(m))).ok
\* a truncated message, and one with a frame too short for it
Short == cut \in 1..(Len(BodyOf(m)) - 1) => Meaning(SubSeq(BodyOf(m), 1, cut)).k = "bad"
Stream == Hello \o Frame(MessageFrame, BodyOf(m)) \o Hello
Cut == cut > 0 =>
  LET p == Items(SubSeq(Stream, 1, cut))
      q == Items(p.rest \o SubSeq(Stream, cut + 1, Len(Stream)))
  IN p.items \o q.items = Items(Stream).items /\ Len(Items(Stream).items) = 1
=============================================================================

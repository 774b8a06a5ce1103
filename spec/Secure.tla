------------------------------- MODULE Secure -------------------------------
(* How a secure connection switches from negotiation frames to plain TLS     *)
(* records: each end frames what it writes, and unframes what it reads, until *)
(* its own handshake returns. TLS is its flights, in each version, with and   *)
(* without client authentication, session tickets and resumption; a flight is *)
(* a sequence of records, written at once or record by record.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Fixed      \* servers that ask for certificates send no tickets

Versions == {12, 13}
Cfgs == { [v |-> a, auth |-> b, tickets |-> c, resumed |-> d, split |-> e] :
            a \in Versions, b \in BOOLEAN, c \in BOOLEAN, d \in BOOLEAN, e \in BOOLEAN }
Legal(g) == (g.resumed => g.tickets) /\ (Fixed /\ g.auth => ~g.tickets)

\* what is written in order: who, records, those of them the handshake of the
\* other side waits for
Flights(g) ==
  CASE g.v = 12 /\ ~g.resumed ->
         << [by |-> "c", recs |-> <<"hello">>, need |-> 1],
            [by |-> "s", recs |-> <<"hello", "cert", "done">>, need |-> 3],
            [by |-> "c", recs |-> (IF g.auth THEN <<"cert", "verify">> ELSE <<>>) \o <<"kex", "ccs", "fin">>, need |-> IF g.auth THEN 5 ELSE 3],
            [by |-> "s", recs |-> (IF g.tickets THEN <<"ticket">> ELSE <<>>) \o <<"ccs", "fin">>, need |-> IF g.tickets THEN 3 ELSE 2] >>
    [] g.v = 12 /\ g.resumed ->
         << [by |-> "c", recs |-> <<"hello">>, need |-> 1],
            [by |-> "s", recs |-> <<"hello", "ticket", "ccs", "fin">>, need |-> 4],
            [by |-> "c", recs |-> <<"ccs", "fin">>, need |-> 2] >>
    [] g.v = 13 ->
         << [by |-> "c", recs |-> <<"hello">>, need |-> 1],
            \* without client authentication the tickets are known with the server's last message
            [by |-> "s", recs |-> <<"hello", "ccs", "ext", "fin">> \o (IF g.tickets /\ ~g.auth THEN <<"ticket">> ELSE <<>>), need |-> 4],
            [by |-> "c", recs |-> <<"ccs">> \o (IF g.auth THEN <<"cert">> ELSE <<>>) \o <<"fin">>, need |-> IF g.auth THEN 3 ELSE 2] >>
         \o (IF g.tickets /\ g.auth THEN << [by |-> "s", recs |-> <<"ticket">>, need |-> 0] >> ELSE <<>>)

VARIABLES g, pos, wire, buf, done, app, got, broken
vars == <<g, pos, wire, buf, done, app, got, broken>>
Ends == {"c", "s"}
Peer(x) == IF x = "c" THEN "s" ELSE "c"
NApp == 2

Init ==
  /\ g \in { x \in Cfgs : Legal(x) }
  /\ pos = [x \in Ends |-> [f |-> 1, r |-> 0]]    \* flight, records of it seen
  /\ wire = [x \in Ends |-> <<>>]                 \* towards x: [framed, recs]
  /\ buf = [x \in Ends |-> <<>>]                  \* unframed, not read yet
  /\ done = [x \in Ends |-> FALSE]
  /\ app = [x \in Ends |-> 0]
  /\ got = [x \in Ends |-> 0]
  /\ broken = FALSE

F == Flights(g)
Mine(x) == pos[x].f <= Len(F) /\ F[pos[x].f].by = x
Theirs(x) == pos[x].f <= Len(F) /\ F[pos[x].f].by # x
\* a handshake returns when there is nothing left it writes or waits for
Over(x) == \A i \in pos[x].f .. Len(F) : F[i].by # x /\ F[i].need = 0

Units(x, recs) == IF g.split /\ Len(recs) > 1 THEN << [framed |-> ~done[x], recs |-> <<Head(recs)>>], [framed |-> ~done[x], recs |-> Tail(recs)] >>
                  ELSE << [framed |-> ~done[x], recs |-> recs] >>

WriteFlight(x) ==
  /\ ~done[x] /\ Mine(x)
  /\ wire' = [wire EXCEPT ![Peer(x)] = @ \o Units(x, F[pos[x].f].recs)]
  /\ pos' = [pos EXCEPT ![x] = [f |-> @.f + 1, r |-> 0]]
  /\ UNCHANGED <<g, buf, done, app, got, broken>>

\* a record, from what was unframed before, else from the wire in the way of
\* this end's state
Fetch(x) ==
  /\ buf[x] = <<>> /\ wire[x] # <<>>
  /\ ~done[x] => Theirs(x) /\ F[pos[x].f].need > 0
  /\ wire' = [wire EXCEPT ![x] = Tail(@)]
  /\ buf' = [buf EXCEPT ![x] = Head(wire[x]).recs]
  /\ broken' = (broken \/ Head(wire[x]).framed = done[x])
  /\ UNCHANGED <<g, pos, done, app, got>>

ReadHs(x) ==
  /\ ~done[x] /\ Theirs(x) /\ buf[x] # <<>>
  /\ buf' = [buf EXCEPT ![x] = Tail(@)]
  /\ pos' = [pos EXCEPT ![x] = IF @.r + 1 >= F[@.f].need THEN [f |-> @.f + 1, r |-> 0] ELSE [@ EXCEPT !.r = @ + 1]]
  /\ UNCHANGED <<g, wire, done, app, got, broken>>

Return(x) ==
  /\ ~done[x] /\ Over(x)
  /\ done' = [done EXCEPT ![x] = TRUE]
  /\ UNCHANGED <<g, pos, wire, buf, app, got, broken>>

WriteApp(x) ==
  /\ done[x] /\ app[x] < NApp
  /\ app' = [app EXCEPT ![x] = @ + 1]
  /\ wire' = [wire EXCEPT ![Peer(x)] = Append(@, [framed |-> ~done[x], recs |-> <<"app">>])]
  /\ UNCHANGED <<g, pos, buf, done, got, broken>>

\* tickets and data
ReadApp(x) ==
  /\ done[x] /\ buf[x] # <<>>
  /\ buf' = [buf EXCEPT ![x] = Tail(@)]
  /\ got' = [got EXCEPT ![x] = @ + IF Head(buf[x]) = "app" THEN 1 ELSE 0]
  /\ UNCHANGED <<g, pos, wire, done, app, broken>>

Next == ~broken /\ \E x \in Ends : WriteFlight(x) \/ Fetch(x) \/ ReadHs(x) \/ Return(x) \/ WriteApp(x) \/ ReadApp(x)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoMix == ~broken
\* only what the grammar of Server has: frames first, records after them
Grammar == \A x \in Ends : \A i, j \in 1..Len(wire[x]) : i < j /\ ~wire[x][i].framed => ~wire[x][j].framed
\* data only once the handshake of the sender is over, handshakes only in frames
Sealed == \A x \in Ends : \A i \in 1..Len(wire[x]) : wire[x][i].framed # (\E k \in 1..Len(wire[x][i].recs) : wire[x][i].recs[k] = "app")
Works == <>[](\A x \in Ends : done[x] /\ got[x] = NApp)
=============================================================================

import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("S01","Serialization round trip",
 "Every value of a supported shape (booleans, fixed-width integers, floats, strings of valid UTF-8, GUIDs, custom-marshalled fields, nested and embedded structs, pointers, slices and maps of these) that is marshalled and unmarshalled into the same type comes back equal, treating nil and empty slices/maps as the same, and its encoding is the documented Service Fabric layout (type bytes, compressed integers, UTF-16 strings, sized object scopes). Shapes that are not supported are refused with an error and never encoded silently wrong.",
 ["inputs"],"for every Go type built from the supported shapes and every value of it",
 "The tests marshal a dozen hand-written structs and only compare with what the same code decodes; they never pin bytes, integer boundaries, empty/non-empty combinations, nested maps or pointers.",
 ["serialization/marshal.go","serialization/unmarshal.go","serialization/fabricserializationtype.go","serialization/guid.go","serialization/common.go"],
 [("encodeState.value / decodeState.value","serialization/marshal.go, serialization/unmarshal.go"),("objectScopeBegin/End","serialization/marshal.go")],
 observe=["serialization.Marshal","serialization.Unmarshal"])
p("S02","Version tolerance of encoded objects",
 "An object encoded by a newer version of a struct (extra trailing fields, at any nesting depth, inside arrays, maps or behind pointers) decodes into the older struct with all shared fields equal and everything after it still decoded correctly; an object encoded by an older version decodes into the newer struct with shared fields equal and the new fields left unset. Type-information blocks in an object header are skipped without affecting the fields.",
 ["inputs"],"for every pair of struct versions related by appending fields, at every nesting position, and every value",
 "The tests check three version pairs with the extra fields at the top level, so nothing is decoded after a skipped or short object; nesting, arrays of versioned objects and type information are not sampled.",
 ["serialization/unmarshal.go","serialization/marshal.go"],
 [("readObjectBegin/consumeObjectEnd","serialization/unmarshal.go")],
 observe=["serialization.Unmarshal"])
p("S03","Decoding arbitrary bytes is safe",
 "Unmarshalling any byte string into any supported type either succeeds or returns an error: it never panics, never loops without consuming input, and never allocates memory out of proportion to the input. Every truncation of a valid object encoding, and every non-empty scalar whose type byte contradicts the field it is decoded into, is reported as an error rather than as a value.",
 ["inputs"],"for every byte string and every supported destination type",
 "No test feeds malformed bytes to the decoder; the space of corrupt lengths, sizes and type bytes is unbounded.",
 ["serialization/unmarshal.go","serialization/bytecompress.go"],
 [("length checks, type byte checks, scope end checks","serialization/unmarshal.go")],
 observe=["serialization.Unmarshal"])
p("S04","Integer compression is exact and minimal",
 "Compressed signed and unsigned integers of 16, 32 and 64 bits decode to exactly the value that was encoded over the whole range of each width, use the smallest number of 7-bit groups that keeps the sign, and never exceed the maximum length of their width. An encoding that continues past that maximum length, or whose value does not fit the 16 or 32 bits it is read into, is rejected.",
 ["inputs"],"for every value of every integer width, and every group sequence",
 "Tests sample about fifteen values and compare only with the code's own decoder; group boundaries, minimality and over-long encodings are untested.",
 ["serialization/bytecompress.go"],
 [("readCompressed/writeCompressed","serialization/bytecompress.go")],
 observe=["serialization.Marshal","serialization.Unmarshal"])
p("T01","Messages survive the byte stream intact",
 "Messages sent one after another on a connection are delivered by the receiver exactly once each, in the order they were sent, with identical headers and body, no matter how the transport splits or coalesces the bytes. A stream that ends inside a message never yields that message.",
 ["inputs","histories"],"for every sequence of messages (any body length including empty) and every chunking of the byte stream, including cuts at any byte",
 "Tests send single messages over loopback, where each frame normally arrives whole; chunk boundaries inside the fixed header, message headers or body are never produced.",
 ["transport/frame.go","transport/message.go","transport/conn.go"],
 [("nextFrame/writeFrame","transport/frame.go"),("receive loop","transport/conn.go")],
 observe=["raw bytes on net.Conn","MessageCallback"])
p("T02","Concurrent senders never corrupt the stream",
 "When any number of goroutines send messages, requests, replies, pings and heartbeat answers on one connection at the same time, the bytes on the wire are always a sequence of complete frames, one per successful send, and messages of one goroutine stay in its order. No frame is lost, duplicated or interleaved with another.",
 ["schedules"],"for every interleaving of concurrent sends on one connection",
 "Tests use one sender at a time; the interleaving of partial writes is never exercised.",
 ["transport/frame.go","transport/conn.go"],
 [("single write per frame","transport/frame.go: writeFrame")],
 observe=["net.Conn.Write"])
p("T03","Checksums are generated and enforced as configured",
 "With checking enabled a frame whose fixed header or body differs from what its checksum covers is never delivered and ends the connection with an error; with checking disabled the same checksum field is ignored. Senders emit correct checksums when generation is enabled and zero otherwise, the defaults being header checksum on, body checksum off, and both off on TLS connections.",
 ["inputs","configurations"],"for every combination of the four checksum options, every frame and every corruption",
 "Tests corrupt one byte at one position of one frame with three of the configurations, below the connection API.",
 ["transport/frame.go","transport/conn.go"],
 [("crc8/crc32 checks","transport/frame.go"),("config mapping, setTls","transport/conn.go")],
 observe=["raw bytes","Wait error","MessageCallback"])
p("T04","Malformed frames only end their own connection",
 "Any byte sequence received on a connection leads to deliveries of the well-formed messages that precede the first malformed one, and then to an error ending that connection; lengths that contradict each other, truncated headers and undecodable header values are never delivered as messages. It never crashes the process, hangs other connections, or allocates memory for bytes that were not received.",
 ["inputs"],"for every byte sequence a peer can send",
 "Tests only feed frames produced by the code itself plus one corrupted byte.",
 ["transport/frame.go","transport/message.go","transport/messageheaders.go","transport/conn.go"],
 [("length checks","transport/frame.go"),("header parsing","transport/messageheaders.go")],
 observe=["raw bytes","Wait error","MessageCallback"])
p("T05","Message headers are carried faithfully",
 "All message headers (identity, correlation, actor, action, flags, fault, retry count and any number of custom headers, repeated ones in order) arrive with the values the sender set, custom header types registered with an activator arrive as decoded objects and unregistered ones as their raw bytes. Setting a custom header never overwrites an existing one, appending always adds, and a header too large for the wire format is refused with an error instead of being sent truncated.",
 ["inputs","histories"],"for every header assignment and every sequence of set/append operations",
 "One test sets each header once with one custom header; repeated custom headers, unregistered ones, defaults and sizes are not sampled.",
 ["transport/messageheaders.go","transport/message.go"],
 [("writeTo/parseFabricMessageHeaders","transport/messageheaders.go"),("SetCustomHeader/AppendCustomHeader","transport/messageheaders.go")],
 observe=["Connection send/receive","MessageHeaders accessors"])
p("T06","Replies reach exactly the request they answer",
 "A request completes with a reply only if that reply's correlation id is the request's id, and every received message is consumed at most once: either by exactly one pending request or by the message callback. Duplicate, late, unknown or uncorrelated messages go to the callback in arrival order and never complete another request.",
 ["schedules","histories"],"for every interleaving of requests, replies (in any order, duplicated, unknown), cancellations and closes",
 "Tests run a single request at a time with one matching reply.",
 ["transport/requesttable.go","transport/conn.go"],
 [("RequestTable.Put/Feed","transport/requesttable.go"),("receive loop dispatch","transport/conn.go")],
 state=[("pending requests","map id -> waiter","transport/requesttable.go")],
 observe=["RequestReply result","MessageCallback"])
p("T07","Every request ends and none blocks the connection",
 "A pending request ends with its reply, with the context's error once its context is done, or with an error once the connection is closed or lost, and a request started on a closed connection fails. Cancelling or abandoning requests at any moment, including while the reply is being delivered, never stops later messages on the connection from being delivered.",
 ["schedules","fault_sequences"],"for every interleaving of reply arrival, context cancellation, local close and connection loss",
 "The cancel tests sleep a second on each side of the race and never deliver a reply while cancelling.",
 ["transport/requesttable.go","transport/conn.go"],
 [("PendingRequest.Wait/Close, RequestTable.Close","transport/requesttable.go"),("connection.Close","transport/conn.go")],
 observe=["RequestReply result","Wait","MessageCallback"])
p("T08","Message identities are unique and stable",
 "Every message that leaves a connection carries a non-empty identity; identities assigned by the library are never assigned twice by one connection or generator, however many goroutines send, and differ between connections. An identity chosen by the caller is sent unchanged.",
 ["schedules","histories"],"for every interleaving of concurrent senders and every number of messages",
 "No test looks at message identities.",
 ["transport/message.go","transport/conn.go"],
 [("messageFactory.Next","transport/message.go")],
 observe=["MessageId headers on the wire","MessageIdGenerator"])
p("T09","Heartbeats answer the right ping and never wedge",
 "A ping succeeds only after a heartbeat response carrying its own time tick has arrived, fails when its context is done or the connection closes, and every heartbeat request from the peer is answered by exactly one response with the same content. Responses that are unsolicited, stale, duplicated or malformed neither fail nor complete a ping, nor block, crash or leak anything in the process, before or after close.",
 ["schedules","histories"],"for every interleaving of concurrent pings, cancellations, responses in any order, peer heartbeat requests and close",
 "The test performs one ping and one peer heartbeat request, each answered promptly.",
 ["transport/conn.go"],
 [("Ping/handleTransportMessage","transport/conn.go")],
 observe=["Ping result","frames on the wire"])
p("T10","A rejected connection stays rejected",
 "After the peer reports a connection authorization failure, the connection is closed, pending requests fail, the receive loop reports the rejection with its code and message, and every later send on that connection returns that rejection error without writing anything. A successful authorization report changes nothing.",
 ["histories"],"for every position of the report among other traffic and calls",
 "No test sends an authorization report.",
 ["transport/conn.go"],
 [("ConnectionAuth handling, fatalerr","transport/conn.go")],
 observe=["Wait error","SendOneWay/RequestReply errors","wire"])
p("T11","Server connections are isolated",
 "A server serves any number of connections at once: it opens each with its transport-init message, hands every message to the callback exactly once together with the connection it arrived on, and replies sent on that connection reach only that peer. Failure, malformed data, failed handshake or slow handling on one connection never affects others, and a closed server stops accepting.",
 ["schedules","histories","fault_sequences"],"for every interleaving of connects, messages, failures and closes on several connections",
 "Tests connect one client at a time that behaves well.",
 ["transport/server.go","transport/conn.go"],
 [("Server.Serve/handle","transport/server.go")],
 observe=["MessageCallback","wire of each connection"])
p("T12","The secure channel carries the same messages, and only encrypted",
 "With TLS configured, both sides exchange the handshake inside security-negotiation frames and everything after it inside the TLS session, so that all messages are delivered as on a plain connection under any chunking, and no application header or body byte ever crosses the wire in clear. If the handshake fails, connecting fails with an error, the underlying connection dialled for it is closed, and no message is sent or delivered.",
 ["configurations","inputs","fault_sequences"],"for every TLS version and certificate/session configuration, every chunking of the wire bytes and every failure point of the handshake",
 "One test does one successful TLS 1.3 handshake without session cache on loopback.",
 ["transport/tls.go","transport/conn.go","transport/client.go"],
 [("fabricSecureConn.Read/Write, handshake completion","transport/tls.go")],
 observe=["wire bytes","Connect error","MessageCallback"])
p("T13","The pipe relays transparently",
 "A pipe forwards every message of either side to the other exactly once, in order, with headers and body as sent, except as its filter rewrites or drops them; the first message of a plain connection is forwarded too. When either side ends or fails, or the upstream cannot be reached, both connections are closed, and checksum options apply per side.",
 ["histories","fault_sequences","configurations"],"for every message sequence in both directions, filter behaviour and point of failure",
 "There is no test of the pipe at all.",
 ["transport/piper.go"],
 [("Piper.handle/pipe/copy","transport/piper.go")],
 observe=["wire of both sides"])
p("L01","Lease pings report real pongs",
 "A lease ping succeeds only if a ping response for its session arrived after the ping was issued and while the session was open; it always succeeds when one arrives before its context ends, and otherwise ends with an error on context end, session close or write failure. The last-pong time never goes backwards and is no earlier than the pong that completed a ping.",
 ["schedules"],"for every interleaving of pings, pongs (also arriving while the ping is being written), cancellations and closes on several sessions",
 "The lease package has no tests.",
 ["lease/agent.go"],
 [("leaseSession.Ping/onMessage/boardcastPong","lease/agent.go")],
 observe=["Session.Ping","Session.LastPongTime","wire"])
p("L02","Lease messages follow the lease wire format",
 "Every lease ping is one whole lease frame whose message carries the version, sizes, durations in milliseconds, instances and listen endpoint of its agent at consistent offsets, also when many pings are sent at once. A message produced by one agent is accepted by another and credited to the session for exactly the endpoint it names, and to no other.",
 ["inputs","schedules"],"for every agent configuration (address, port, durations), remote instance and set of sessions",
 "The lease package has no tests.",
 ["lease/serialize.go","lease/frame.go","lease/agent.go"],
 [("marshal/unmarshal","lease/serialize.go"),("writeDataWithFrame/nextLtFrame","lease/frame.go")],
 observe=["wire","Session.Ping"])
p("L03","Lease agents and sessions shut down cleanly",
 "After a session is closed its waiting and later pings fail and it no longer receives pongs, while other sessions, including a newer one to the same address, keep working. After an agent is closed its sessions are closed, no new session can be established, and its accept loop returns instead of spinning.",
 ["histories","schedules"],"for every sequence and interleaving of establish, ping, close session and close agent",
 "The lease package has no tests.",
 ["lease/agent.go"],
 [("Agent.Close/Wait/Establish, leaseSession.Close","lease/agent.go")],
 observe=["Session and Agent API"])
p("L04","Malformed lease traffic is harmless",
 "Any byte sequence sent to a lease listener ends at most that connection: it never crashes the agent, never allocates memory for bytes that were not received, and never completes a ping of a session it does not name. Well-formed messages that precede the malformed one on the same connection, and all messages on other connections, keep their effect.",
 ["inputs"],"for every byte sequence, including any number of connect frames and any offsets and sizes",
 "The lease package has no tests.",
 ["lease/frame.go","lease/serialize.go","lease/agent.go"],
 [("nextLtFrame","lease/frame.go"),("dataAtList/unmarshal","lease/serialize.go")],
 observe=["Session.Ping","process survival"])
p("F01","Node id ranges cover the ring correctly",
 "A node id is contained in a range exactly when, walking the 128-bit ring upwards from the range's begin, it is met no later than the range's end; this includes both ends and ranges that wrap around zero.",
 ["inputs"],"for every triple of 128-bit ids",
 "The federation package has no tests; wrapping ranges are one of many orderings.",
 ["federation/nodeid_range.go","federation/nodeid.go"],
 [("NodeIdRange.Contains","federation/nodeid_range.go")],
 observe=["NodeIdRange.Contains"])
p("F02","Messages are addressed to the right partner",
 "A direct message to a node id goes only to the known partner with exactly that id and fails if it is unknown; a routed message goes to the known partner met first when walking the ring upwards from the id, an exact match being first. The local node is never chosen, whatever the order in which partners became known.",
 ["inputs","histories"],"for every set of known partners, learning order and target id",
 "The federation package has no tests.",
 ["federation/sitenode_sender.go","federation/sitenode_parteners.go","federation/nodeid.go"],
 [("connectToNode","federation/sitenode_sender.go"),("closestPartnerNode","federation/sitenode_parteners.go")],
 observe=["address dialled and wire"])
p("F03","Partner knowledge only moves forward",
 "For each partner the node remembers the information with the highest instance it has heard, and within one instance a later phase supersedes an earlier one; older information never replaces newer, whatever the order or concurrency in which it arrives and whichever connection it arrives on. Every partner header of a message is taken into account.",
 ["schedules","histories"],"for every interleaving of partner reports, from any number of connections",
 "The federation package has no tests.",
 ["federation/sitenode_parteners.go","federation/sitenode.go"],
 [("updatePartnerNode","federation/sitenode_parteners.go"),("onMessage","federation/sitenode.go")],
 observe=["KnownPartnerNodes"])
p("F04","Bootstrap finishes once a routing partner is heard",
 "Bootstrapping sends a vote ping to every seed in each round, ends successfully as soon as some partner has reported the routing phase, however early that report arrives, and otherwise keeps retrying until its context ends, then returning the context's error. It never reports success without such a report, and an unreachable seed does not stop the others from being pinged.",
 ["schedules","fault_sequences"],"for every timing of reports relative to the ping round, every subset of unreachable seeds and every cancellation time",
 "The federation package has no tests.",
 ["federation/sitenode_boot.go","federation/sitenode.go"],
 [("Bootstrap, changePhase","federation/sitenode_boot.go, federation/sitenode.go")],
 observe=["Bootstrap result","wire"])
p("F05","Federation messages identify sender and spread membership",
 "Every federation message carries exactly one point-to-point header naming the local instance as sender and the chosen partner as receiver, the local node's own partner record, and one partner record for every known partner whose instance is known. Routed messages also carry a routing header tied to the message's id and ask for a reply.",
 ["histories"],"for every set of known partners and every message sent",
 "The federation package has no tests.",
 ["federation/sitenode_sender.go","federation/message.go","transport/messageheaders.go"],
 [("appendPartnerInfo, SendOneWay, Route","federation/sitenode_sender.go")],
 observe=["wire"])
p("F06","One live connection per partner address",
 "Messages to one partner address share a single connection however many goroutines send at once; after that connection fails, or if dialling it failed, the next send dials anew instead of reusing the dead one, and a failed dial is reported to the sender. Closing the node closes its connections.",
 ["schedules","fault_sequences"],"for every interleaving of sends, connection losses, dial failures and close",
 "The federation package has no tests.",
 ["federation/sitenode_sender.go"],
 [("cachedConn, getConn","federation/sitenode_sender.go")],
 observe=["ClientDialer calls","connection closes"])
p("F07","Routed requests end with their own reply",
 "A routed request completes with the message that relates to its id, arriving on any of the node's connections, is reported as an error carrying that reply if the reply is a fault, and ends with an error when its context is done, sending fails or the node is closed. Unrelated, duplicate or late replies never complete it and never stop the node from processing further messages; joining reports failure when its query is not answered.",
 ["schedules","histories"],"for every interleaving of routed requests, replies in any order and connection, cancellations and close",
 "The federation package has no tests.",
 ["federation/sitenode_sender.go","federation/sitenode.go","federation/sitenode_join.go","transport/requesttable.go"],
 [("Route, onMessage","federation/sitenode_sender.go, federation/sitenode.go")],
 observe=["Route/Join result"])
p("F08","Node identity conversions are total and exact",
 "A node id printed as text and parsed back is the same id, text that is not a 128-bit hexadecimal number is refused, and a node id survives serialization unchanged. Deriving an id from a node name never fails on any name, depends only on the name, and keeps the documented layout: names that differ only in their trailing instance number share the name-derived part, get distinct ids for distinct instances, and names without a numeric instance fall back to the plain hash.",
 ["inputs"],"for every id, text and node name",
 "The federation package has no tests.",
 ["federation/nodeid_generator.go","federation/nodeid.go"],
 [("NodeIDFromHex, NodeIDFromV4Generator, pearsonHash","federation/nodeid_generator.go")],
 observe=["NodeIDFromHex","NodeID.String","NodeIDFromV4Generator"])
p("F09","Discovery asks and reports every reachable member",
 "Each discovery round sends a vote ping to every seed and every member discovered so far, including those with unreachable peers, and the result lists every seed and every partner heard of with its newest information, never the local node, each once. Discovery ends after a bounded number of rounds without news, or with an error when its context ends.",
 ["histories","schedules"],"for every membership graph, reply timing and cancellation time",
 "The federation package has no tests.",
 ["federation/sitenode_boot.go"],
 [("Discover","federation/sitenode_boot.go")],
 observe=["Discover result","wire"])
p("N01","Naming calls report the gateway's true answer",
 "Each naming call returns the values the gateway sent in the reply to its own request, returns an error when the gateway reports a client operation failure, an error code or an unusable or unexpected reply, and returns the context's error once its context is done. No reply, however malformed, crashes the caller.",
 ["inputs","histories"],"for every gateway reply, reply order and cancellation time",
 "The naming package has no tests.",
 ["naming/naming.go"],
 [("requestReply, Ping, GetApplicationList","naming/naming.go")],
 observe=["Ping","GetApplicationList","RegisterFilter"])
p("N02","Service notifications are acknowledged and delivered once",
 "Every well-formed service notification is acknowledged exactly once with a success reply related to it and handed to the application exactly once with its content; a malformed one is neither delivered nor acknowledged as successful. Messages of other kinds are not delivered as notifications, and a slow application handler never blocks the connection.",
 ["inputs","histories"],"for every sequence of well-formed, malformed and unrelated messages",
 "The naming package has no tests.",
 ["naming/naming.go"],
 [("NamingClient.onMessage","naming/naming.go")],
 observe=["wire","OnServiceNotification"])
p("N03","Filter registration is ordered and uniquely numbered",
 "Registering a notification filter first announces the client to the gateway and only after that was answered sends the filter with the requested name and flags; it returns success only if both steps were answered without failure. Concurrent registrations on one client get distinct filter ids and every returned id is the id that was registered, under one client identity.",
 ["schedules","histories"],"for every interleaving of concurrent registrations and every failure of either step",
 "The naming package has no tests.",
 ["naming/naming.go"],
 [("RegisterFilter","naming/naming.go")],
 observe=["wire","RegisterFilter result"])
p("C01","Time span conversion is faithful",
 "Converting a duration to the protocol's 100 ns time span and back loses less than 100 ns and keeps the order and sign of durations. Time spans too large for a duration, such as the maximum span that means 'forever', convert to the largest (or smallest) duration and never change sign.",
 ["inputs"],"for every 64-bit duration and time span",
 "The common package has no tests.",
 ["common/time.go"],
 [("TimeSpanFromDuration, ToDuration","common/time.go")],
 observe=["TimeSpanFromDuration","TimeSpan.ToDuration"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s)
    assert x["statement"].count(". ")<3,x["id"]
print(len(P))

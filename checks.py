"""What decides each property: design models, driver, trace specification."""

CHECKS = {}


CODEC_NOTE = {
    "S01": "The encoding is a TLA+ function; TLC checks that it is decodable, self delimiting and injective on every type and value of a small universe, replays all of these into Marshal and Unmarshal, and checks random types and values (unsupported shapes included) against the same function, byte for byte. Bounded by the sampled types and values; trusts the harness's translation of Go values.",
    "S02": "TLC checks the skipping rules on every version pair at every nesting position of a small universe; objects encoded by an independent encoder as newer and older versions (random nesting, type information blocks) are decoded by the code and compared with the specification's projection. Bounded by the sampled types and values.",
    "S03": "TLC checks that no strict prefix and no contradicting type byte decodes; the code's answers on truncations, mutations and random bytes are checked against the specification's classification (must succeed with this value, must refuse, unspecified), along with panics, hangs and memory per input byte. Bounded by the sampled inputs; inputs the specification leaves open are only checked for safety.",
    "S04": "TLC checks exactness, minimality and length of the compression for 16 bit values and the edges of 64 bit ones; the code is run on all boundary values and samples of all widths plus arbitrary group sequences and checked against the same function (all 16 bit values in the thorough tier).",
}


def codec(pid):
    CHECKS[pid] = {
        "note": CODEC_NOTE[pid],
        "models": [{"module": "CodecMC", "cfg": "CodecMC.cfg", "deep": "CodecMCDeep.cfg", **({"gen": "codec.nd"} if pid == "S01" else {})}],
        "trace": "CodecTrace",
    }


for p in ("S01", "S02", "S03", "S04"):
    codec(p)

CONN_NOTE = {
    "T02": "the wire carries exactly one whole frame per successful send, heartbeat answers included, in each goroutine's order",
    "T06": "every message is consumed at most once, by the request whose identity it names or by the callback, in order",
    "T07": "requests end with reply, context error or close error, and nothing that requests do stops later deliveries",
    "T08": "identities on the wire are never empty nor assigned twice, callers' identities are unchanged, generators and connections never share one",
    "T09": "pings end on their own pong, context or close; every heartbeat request gets one answer; other heartbeat traffic has no effect",
    "T10": "after a rejection nothing is written, sends report it with code and message, pending requests fail and Wait reports it",
}


def conn(pid):
    CHECKS[pid] = {
        "note": "Conn.tla is the connection's state machine; TLC checks in small worlds that %s, and that a step-by-step model of the implementation's algorithm (ConnImpl) refines it and always comes to rest. All environment scripts of 5 steps that ConnGen enumerates, fixed and random longer ones, run on the real code over an in-memory connection, also under random schedules and with one goroutine stopped at each statement in turn; TLC checks that every recorded trace is one Conn allows, obligations at rest included. Bounded by the scripts and schedules run; trusts the in-memory connection and the detection of rest from goroutine states." % CONN_NOTE[pid],
        "models": [{"module": "ConnMC", "cfg": "ConnMC.cfg", "deep": "ConnMCDeep.cfg"}, {"module": "ConnImpl", "cfg": "ConnImpl.cfg", "deep": "ConnImplDeep.cfg"},
                   {"module": "ConnGen", "cfg": "ConnGen.cfg", "deep": "ConnGenDeep.cfg", "gen": "conn.nd"}],
        "trace": "ConnTrace",
        "parts": 8,
    }


for p in CONN_NOTE:
    conn(p)

WIRE_NOTE = {
    "T01": "TLC checks that the receiver of Wire.tla delivers exactly the complete messages of a stream however it is cut. Streams that phabrik writes (messages enumerated by the specification and random ones) are fed back cut at every position, ended at every position, byte by byte and at random; each frame and each delivery is checked against the specification.",
    "T03": "TLC checks that every flipped bit and pair of bits under a checksum is noticed and what is not checked is ignored. Every single bit flip of sample frames, bursts and arbitrary checksum fields run through the code in all four checking configurations; everything senders, servers, requests and heartbeats write is checked against the specified checksums in all configurations.",
    "T04": "TLC checks that no frame with contradicting lengths is a message and no input leaves the receiver stuck. Malformed frames and headers of many kinds, around well-formed ones, are fed to clients and to one connection of a server with others; deliveries, ends, memory and crashes are checked against the specification. Inputs whose meaning is not specified are only checked for safety.",
    "T05": "TLC checks that frames decode to the headers they were built from. Enumerated and random headers, repeated and registered custom ones included, are sent and received; operations on custom headers and the sizes around the format's limit are checked against the specification.",
}


def wire(pid):
    CHECKS[pid] = {
        "note": "Wire.tla specifies frames, checksums and headers byte for byte. " + WIRE_NOTE[pid] + " Bounded by the sampled messages and cuts; trusts the in-memory connection.",
        "models": [{"module": "WireMC", "cfg": "WireMC.cfg", "deep": "WireMCDeep.cfg", **({"gen": "wire.nd"} if pid in ("T01", "T05") else {})}],
        "trace": "WireTrace",
        "parts": 8,
    }


for p in WIRE_NOTE:
    wire(p)

RING_NOTE = {
    "F01": "TLC checks on a ring small enough to walk that the ring distance definition is what walking up the ring means, ends and wrapping included. All triples of 13 corner ids and random ones with their neighbours run through Contains.",
    "F08": "TLC checks that text and binary form are invertible and that the V4 derivation (specified in full, hash included) spreads instances bijectively. Printing, parsing (well-formed and not), derivation from names of all kinds, and serialization in both directions are checked against the specification; the MD5 derivation only for its dependence on the name and against the vectors of RFC 1321.",
    "C01": "TLC checks the specified conversions on small spans. Boundary and random 64-bit values are converted both ways and compared, order included, against the specification on decimal digits.",
}


for p in RING_NOTE:
    CHECKS[p] = {
        "note": RING_NOTE[p] + " Bounded by the sampled inputs.",
        "models": [{"module": "RingMC", "cfg": "RingMC.cfg", "deep": "RingMCDeep.cfg"}],
        "trace": "RingTrace",
    }

NAMING_NOTE = {
    "N01": "every call ends with the answer of its own reply, with its context's error, or with the failure the gateway reported",
    "N02": "every well-formed notification is acknowledged once and handed over once and nothing else is",
    "N03": "filters go out only after the client was announced, with what was asked for, under distinct ids and one client identity",
}


for p in NAMING_NOTE:
    CHECKS[p] = {
        "note": "Naming.tla specifies the naming client and the gateway's side of it; TLC checks in small worlds that %s. All scripts of 4 steps (calls, replies of 14 kinds, notifications, cancellations, close) that NamingGen enumerates and random longer ones run on the real client over an in-memory connection, also under random schedules and with one goroutine stopped at each statement in turn; TLC checks that each recorded trace, obligations at rest included, is one the specification allows. Bounded by the scripts and schedules run; trusts the in-memory connection and the detection of rest." % NAMING_NOTE[p],
        "models": [{"module": "NamingMC", "cfg": "NamingMC.cfg", "deep": "NamingMCDeep.cfg"}, {"module": "NamingGen", "cfg": "NamingGen.cfg", "deep": "NamingGenDeep.cfg", "gen": "naming.nd"}],
        "trace": "NamingTrace",
        "parts": 8,
    }

LEASE_NOTE = {
    "L01": "pings succeed only on a pong for their session and the last pong never runs backwards",
    "L02": "the wire format is what agents build and read, however streams are cut",
    "L03": "closed sessions and agents end everything that is theirs and nothing else",
    "L04": "nothing a peer sends completes a ping of a session it does not name",
}


for p in LEASE_NOTE:
    CHECKS[p] = {
        "note": "LeaseWire.tla specifies lease frames and messages byte for byte, Lease.tla the agent. TLC checks in small worlds that %s. All scripts of 5 steps that LeaseGen enumerates, fixed and random longer ones run on real agents over in-memory connections and listeners, also under random schedules and with one goroutine stopped at each statement in turn; TLC checks each recorded trace, every frame's bytes and the obligations at rest included. Bounded by the scripts, schedules and byte strings run; trusts the in-memory network and the detection of rest; lease traffic over TLS is not covered." % LEASE_NOTE[p],
        "models": [{"module": "LeaseMC", "cfg": "LeaseMC.cfg", "deep": "LeaseMCDeep.cfg"}, {"module": "LeaseGen", "cfg": "LeaseGen.cfg", "deep": "LeaseGenDeep.cfg", "gen": "lease.nd"}]
        + ([{"module": "LeaseWireMC", "cfg": "LeaseWireMC.cfg", "deep": "LeaseWireMCDeep.cfg"}] if p in ("L02", "L04") else []),
        "trace": "LeaseTrace",
        "parts": 8,
    }

SERVER_SCRIPTS = "%s run on the real code over in-memory listeners and connections with the driver's own TLS peer, also under random schedules and with one goroutine stopped at each statement in turn; TLC checks each recorded trace against Server.tla, obligations at rest included. Bounded by the scripts and schedules run; trusts crypto/tls, the in-memory network and the detection of rest."

CHECKS["T11"] = {
    "note": "Server.tla is the accept loop and one Conn machine per peer. TLC checks in small worlds with one misbehaving peer that each message is called back once, replies stay on their connection, nothing is accepted after the listener is closed, and the other peer is always served. " + SERVER_SCRIPTS % "All scripts of 3 steps that ServerGen enumerates, fixed and random longer ones, plain and over TLS,",
    "models": [{"module": "ServerMC", "cfg": "ServerMC.cfg", "deep": "ServerMCDeep.cfg"}, {"module": "ServerGen", "cfg": "ServerGen.cfg", "deep": "ServerGenDeep.cfg", "gen": "server.nd"}],
    "trace": "ServerTrace",
    "parts": 8,
}
CHECKS["T12"] = {
    "note": "Secure.tla is the switch from negotiation frames to the TLS session at both ends, over all handshakes (versions, client authentication, tickets, resumption, flights written at once or record by record): TLC checks that no byte is read in the wrong mode, that no data leaves before the handshake is over and that both ends always come through. Server.tla adds this to the connections. " + SERVER_SCRIPTS % "Clients and servers in 23 TLS configurations (5 that cannot succeed among them), handshakes cut and corrupted at many points, random scripts and DialTCP over loopback" + " Everything written is taken apart: frames of the security actor with whole TLS records inside, then records only, and a marker in every header and body may not show.",
    "models": [{"module": "Secure", "cfg": "Secure.cfg"}, {"module": "ServerMC", "cfg": "ServerMC.cfg", "deep": "ServerMCDeep.cfg"}],
    "trace": "ServerTrace",
    "parts": 8,
}

CHECKS["T13"] = {
    "note": "Pipe.tla is one piped connection: the first frame, both openings, the upstream, the first message, both directions. TLC checks in small worlds that what one end said, filtered, and nothing else comes out at the other in order, that the upstream is looked for once and only after the handshake, that nothing is passed on before both ends are open, and that the end of one end is the end of both. " + SERVER_SCRIPTS.replace("Server.tla", "Pipe.tla") % "All scripts of 2 (thorough: 3) steps that PipeGen enumerates, fixed and random longer ones, with and without a filter, plain and over TLS on either side,",
    "models": [{"module": "PipeMC", "cfg": "PipeMC.cfg", "deep": "PipeMCDeep.cfg"}, {"module": "PipeGen", "cfg": "PipeGen.cfg", "deep": "PipeGenDeep.cfg", "gen": "pipe.nd"}],
    "trace": "PipeTrace",
    "parts": 8,
}

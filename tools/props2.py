prop("C08", "Close and cancellation end everything at once and leave nothing behind",
     "After Close (or cancellation of its context) every operation of a socket that is in progress, blocked Send, Recv, Dial with endless retries, handshakes and subscriptions included, returns within two seconds, and every later one reports an error. Close succeeds exactly once, whatever concurrent calls. When all sockets are closed, no goroutine, connection or listener of theirs remains; the endpoint can be listened on and dialed again at once. The connections, goroutines and memory serving a peer that has left are released while the socket lives on.",
     ["schedules", "fault_sequences", "histories"],
     "for all socket types, transports and operations in progress, Close and cancel at any moment, concurrently and repeatedly, with stalled, refused and half-open connections, and " + SCHED,
     "The tests close idle sockets at the end; leaks and hangs need a Close that races with a handshake, a blocked write or a reconnection.",
     ["socket.go", "msgio.go", "conn.go", "req.go", "rep.go", "router.go", "pub.go", "internal/inproc/inproc.go", "internal/inproc/conn.go"],
     [("cancellation of the socket's context", "socket.go (Close)"), ("reaper of closed connections", "socket.go (connReaper, rmConn)"), ("reader goroutine per connection", "msgio.go (qreader.listen)")],
     ["Close", "Send", "Recv", "Dial", "Listen"])

prop("C09", "Send deadlines are exact and leave the socket usable",
     "A Send (and a subscription) returns as soon as its message is on its way, at the latest when the send deadline has expired, and reports a deadline error only then; it never succeeds while there is nobody to send to, goes through when a peer appears before the deadline, and waits for one until it expires. However many deadlines expired, and however stalled the peers were, once the links recover Sends succeed and their messages arrive, exactly once and intact.",
     ["schedules", "fault_sequences", "histories"],
     "for all socket types, deadlines (zero included), peers that appear, stall for less, about or more than the deadline or for ever, tiny buffers, and " + SCHED,
     "Needs a controlled clock and peers stalled in the middle of a frame exactly around the deadline; the tests check one sleep with real time.",
     ["socket.go", "msgio.go", "conn.go", "req.go", "rep.go", "router.go", "internal/errgroup/errgroup.go", "options.go"],
     [("send deadline", "socket.go (Send, SendMulti, timeout)"), ("waiting for a peer", "msgio.go (mwriter.write), router.go (write)"), ("deadline of the writes", "internal/errgroup/errgroup.go, req.go (write), rep.go (write)")],
     ["Send", "SendMulti", "WithTimeout"])

prop("C10", "Only peers that complete the handshake are admitted",
     "A peer is admitted to a socket, i.e. receives messages from it or has its messages delivered, only after a complete and valid ZMTP 3 handshake: signature and version of the greeting, the security mechanism the socket uses, the mechanism's commands in their order, for PLAIN the socket's user name and password, well-formed metadata, and a compatible socket type. Any other connection is closed, a PLAIN client that is refused being told by one well-formed ERROR first, and a Dial that meets such a peer reports an error; however long a handshake takes or hangs, the socket goes on serving its other peers and accepting new ones, and nothing of it remains after Close. Any peer that does conform is admitted, however its handshake is cut into segments and whatever optional properties it carries.",
     ["inputs", "schedules", "fault_sequences"],
     "for all handshakes derived from a valid one by changing, cutting, reordering, repeating, delaying or replacing its parts, by clients and servers, at any moment of the exchange among healthy peers, and " + SCHED,
     "The tests perform complete handshakes between two library sockets; wrong, partial and stalled handshakes against a socket in use need peers that do not follow the protocol.",
     ["conn.go", "protocol.go", "msg.go", "socket.go", "null_security.go", "security/plain/plain.go", "security/null/null.go"],
     [("greeting, metadata, compatible types", "conn.go (greet, init), protocol.go, socket.go (IsCompatible)"), ("handshake of the mechanism", "null_security.go, security/plain/plain.go"), ("accept loop", "socket.go (accept)")],
     ["Listen", "Dial", "Open", "Recv", "Send"])

prop("C11", "A misbehaving peer cannot harm a socket or its other peers",
     "Whatever bytes a connected peer sends, e.g. frames of impossible or enormous announced length, frames or messages that never end, unknown flags and commands, empty or oversized subscriptions, messages without the envelope a pattern needs, or garbage, the process does not panic, does not allocate memory for bytes that did not arrive, and does not deadlock; all messages among the healthy peers of the same sockets are still delivered exactly once, in order and unchanged, requests of healthy clients are answered, new peers can connect, and a connection on which a frame of impossible length is announced is closed.",
     ["inputs", "schedules", "fault_sequences"],
     "for all socket types and byte sequences during or after the handshake (drawn from a grammar of hostile inputs and from mutated handshakes), any number of such peers as client or server, segmentation, departure at any moment, and " + SCHED,
     "The tests only ever connect well-behaved peers.",
     ["conn.go", "msg.go", "protocol.go", "msgio.go", "pub.go", "router.go", "rep.go", "req.go", "sub.go"],
     [("frame parser", "conn.go (read, readBody)"), ("envelopes", "rep.go, req.go, router.go"), ("subscription messages", "pub.go (listen, topic), conn.go (subscribe)")],
     ["Recv", "Send", "Dial"])

prop("C16", "Concurrent use of the API is free of data races, panics and deadlocks",
     "Several goroutines may use a socket, the sockets of a program, a networking.Transport, the two ends and the listener of an inproc connection, and objects sockets share (one security, one message sent by several) at the same time: sending, receiving, dialing, listening, subscribing, changing and querying options and addresses, registering handlers, disconnecting and closing, while connections come and go and the library's own goroutines run. No two accesses of the library, or of the library and the application using a message, a buffer or a returned list it owns, to the same memory conflict without synchronisation; nothing panics; no operation stays blocked on the library's own locks, and each ends within its timeout, and at Close; every message sent is received whole at most once, Send neither changes nor keeps the caller's frames, a received message belongs to the application, and afterwards no goroutine, connection or timer of a closed socket remains. The answers are right whatever goes on: an option reads back as last set successfully, and one that is refused changes nothing; a transport name can be registered once; endpoints that are malformed or of no known transport are refused.",
     ["schedules", "inputs", "fault_sequences"],
     "for all mixes of concurrent calls on all socket types, transports and shared objects, connection faults, crashes and Close at any moment, and " + SCHED,
     "The race detector of 'make test-race' judges the handful of executions the tests happen to produce; the tests hardly use one socket from more than one goroutine. Here it judges tens of thousands of seeded schedules, each repeatable.",
     ["socket.go", "conn.go", "msgio.go", "pub.go", "sub.go", "xpub.go", "req.go", "rep.go", "router.go", "socket_types.go", "transport.go", "security/plain/plain.go", "internal/inproc/conn.go", "internal/inproc/inproc.go", "networking/transport.go"],
     [("locks and atomics", "socket.go, conn.go, msgio.go"), ("ownership of frames", "conn.go (SendMsg, read), rep.go, req.go, router.go"), ("race detector in the project's own checks", "Makefile (test-race), README.md")],
     ["every exported method of Socket, Transport, inproc.Listener and its connections"])

prop("C17", "Everything on the wire is valid ZMTP 3 that any conforming peer understands",
     "Every byte stream a socket emits on tcp, ipc and inproc is a valid ZMTP 3 stream: the greeting, the commands of the mechanism in order with correct credentials, socket type and identity, then complete messages whose frames carry exactly the bytes, more-flags and shortest length form of what the application sent, with the envelope its pattern prescribes (empty delimiter of REQ, echoed envelope of REP, subscription messages of SUB), never two messages interleaved. Conversely each message a conforming independent peer sends, in any permitted encoding and segmentation, is received by the application as sent, and requests are answered. At rest a publisher has been told exactly the subscriptions in force.",
     ["inputs", "schedules", "configurations"],
     "for all socket types and mechanisms, roles (client, server), message shapes, permitted encodings (long headers for short frames, optional properties, arbitrary segmentation), concurrent senders, and " + SCHED,
     "The tests let the library talk to itself, so an error made symmetrically on both sides goes unnoticed, and interoperability tests need libzmq.",
     ["conn.go", "msg.go", "protocol.go", "null_security.go", "security/plain/plain.go", "req.go", "rep.go", "sub.go", "xsub.go", "pub.go"],
     [("framing", "conn.go (SendMsg, send, sendMulti, read)"), ("greeting, commands and metadata", "protocol.go, msg.go"), ("envelopes", "req.go, rep.go, router.go"), ("subscription messages", "sub.go, socket.go (addConn)")],
     ["bytes on the connection", "Send", "Recv"])

prop("C12", "Dial and reconnection try exactly as often and as long as configured",
     "Dial succeeds within one retry interval of the end-point being there, and otherwise makes exactly one attempt more than the configured number of retries, one retry interval apart, before it reports an error; with -1 retries it tries until the socket is closed. An established connection that is lost, for whatever reason, is re-established to the endpoint it was dialed to, with the same retries, any number of times, unless automatic reconnection was switched off: then never. There is never more than one connection or attempt per dialed endpoint, connections that were not lost are left alone, and once the listener is back, exactly one connection exists and carries traffic (subscriptions included) both ways.",
     ["schedules", "fault_sequences", "configurations"],
     "for all socket types, retry settings, moments at which listeners appear, leave, return or break off handshakes, connections lost at any byte, and " + SCHED,
     "Needs controlled time and connections that break at chosen points, including in the middle of the handshake of a reconnection; the tests dial listeners that are there.",
     ["socket.go", "options.go", "msgio.go", "conn.go", "sub.go", "pub.go", "router.go"],
     [("retries of Dial", "socket.go (Dial)"), ("reconnection", "socket.go (scheduleRmConn, connReaper, dial)"), ("options", "options.go (WithDialerRetry, WithDialerMaxRetries, WithAutomaticReconnect)")],
     ["Dial", "attempts to connect", "Send", "Recv"])

prop("C13", "A Proxy forwards every message between its sides until a socket fails",
     "A running Proxy hands every message received on one of its sockets to the other, in both directions concurrently, exactly once, complete with all frames and their order, in the order received; so REQ or DEALER clients behind a ROUTER get the replies of the REP workers behind a DEALER to their own requests, and subscribers behind an XPUB get what publishers behind an XSUB or SUB publish on their topics, in order, also when other clients are reset meanwhile. It returns an error promptly when one of its sockets is closed or cancelled, and not as long as both work.",
     ["schedules", "fault_sequences", "histories"],
     "for all supported combinations of sockets, numbers of peers, message shapes, load in both directions, Close or cancellation of either side at any moment, and " + SCHED,
     "There are only short tests of one fixed request through a proxy; concurrency of the two directions, load and failures are not sampled.",
     ["proxy.go", "zmq4.go", "router.go", "msgio.go", "xpub.go", "xsub.go"],
     [("forwarding", "proxy.go (Proxy)"), ("envelopes across the proxy", "router.go")],
     ["Proxy", "Send", "Recv"])

prop("C14", "Transport delivers to exactly the connected nodes, whatever others do",
     "A networking.Transport delivers each message it accepts, a broadcast to every node connected to it and a direct message to the named peer, exactly once, with all fields as sent, to the handler registered for its type at that time, and to nobody else; its metrics and peer list say so. Connecting to a node that runs and can be reached succeeds; the variants that retry make exactly the configured number of attempts, with pauses that grow by the configured delay. A peer that is slow, hangs while it is being connected to, or has vanished delays nothing else: other messages, queries, Stop. After DisconnectPeer the peer's broadcasts are not handled and messages to it fail; a connected node that crashes and returns is found again without anything of the earlier connections remaining. Start fails if and only if a port is taken, then leaves nothing behind and can be repeated; Stop ends everything promptly, any number of times, and its ports can be used again at once.",
     ["schedules", "fault_sequences", "histories"],
     "for all numbers of nodes and connection graphs, message shapes, moments of connecting, disconnecting, handler changes, Stop, crash and restart, stalled and hanging peers, malformed messages, and " + SCHED,
     "The package has no tests of its own; every guarantee is about the interplay of several nodes, their life cycles and failing links.",
     ["networking/transport.go", "pub.go", "sub.go", "router.go", "socket.go"],
     [("life cycle", "networking/transport.go (Start, Stop)"), ("peers", "networking/transport.go (ConnectPeerWithAddress, DisconnectPeer)"), ("delivery", "networking/transport.go (Broadcast, Send, subLoop, routerLoop, processMessage)")],
     ["Start", "Stop", "ConnectPeer", "DisconnectPeer", "Broadcast", "Send", "handlers", "GetPeers", "GetMetrics"])

prop("C15", "In-process connections are lossless streams with deadlines and clean closes",
     "An inproc connection is a net.Conn and its listener a net.Listener. The bytes of each Write that succeeds arrive at the other end unchanged, contiguous, exactly once and in order, however large the buffers of either side are and whatever happens to a buffer afterwards; after an end is closed the other one reads everything that was written before, then io.EOF. A Read, Write or Accept blocks only while it has to: it returns promptly when data or room appears, when either end or the listener is closed, and when its deadline, which may be set, moved or removed meanwhile, passes; it times out only then; nothing succeeds on a closed end. A name has at most one listener; a Dial succeeds exactly if somebody listens on the name at that moment, its connection is accepted at most once and in the order of the Dials, and is closed if the listener is closed first; a closed listener's name is free again and closing it once more harms nobody.",
     ["schedules", "fault_sequences", "histories"],
     "for all histories of concurrent listen, dial, accept, read, write, deadline and close operations, all chunk sizes on both sides, and " + SCHED,
     "The guarantees are about operations that overlap with each other, with timers and with closes; most of the package's own tests are skipped.",
     ["internal/inproc/conn.go", "internal/inproc/inproc.go", "internal/inproc/transport.go"],
     [("stream", "internal/inproc/conn.go (read, write, copy)"), ("deadlines", "internal/inproc/conn.go (pipeDeadline.set)"), ("names", "internal/inproc/inproc.go (Listen, Dial, Accept, Close)")],
     ["Read", "Write", "SetDeadline", "SetReadDeadline", "SetWriteDeadline", "Close", "Listen", "Accept", "Dial"])

prop("C18", "A Conn carries messages and commands whole and reports its loss once",
     "Open succeeds on both ends of a stream exactly if they agree on the security mechanism and have compatible socket types, and then each end's Peer.Meta holds the other's socket type and identity (at most 255 bytes). Whatever several goroutines send with SendMsg and SendCmd arrives at the other end's RecvMsg or RecvCmd unchanged and exactly once, each message and command whole, in the order sent, commands as commands with their name and body, under any security mechanism, including one of the application whose encryption makes frames longer; what it cannot encrypt is refused by Send and leaves nothing on the wire, a frame that cannot be decrypted ends the connection and nothing of its message or after it is received, and a malformed command is reported by the call that reads it and harms nothing else. RecvMsg answers each PING with one PONG that has no body, RecvCmd reports ErrBadFrame for a message. Write and Read carry bytes unchanged, and Read returns either all bytes asked for or an error. When the connection is lost, at whatever byte, what arrived before is a prefix of what was sent, the reader is woken, the callback is called exactly once with this connection (which it may use and close), Closed is true, and every later operation fails with ErrClosedConn. What was sent before Close still arrives.",
     ["schedules", "fault_sequences", "histories"],
     "for all pairs of socket types, mechanisms (NULL, PLAIN, and authenticating ones supplied by the application, which may fail), message and command shapes and sizes, numbers of concurrent senders on both ends, connections cut, half-closed, reset, stalled or closed at any byte, and " + SCHED,
     "The tests send one message at a time over a healthy pipe with NULL; interleaved senders, commands between messages, encryption that changes lengths and losses in the middle of a frame are not sampled.",
     ["conn.go", "msg.go", "protocol.go", "security.go", "null_security.go", "security/plain/plain.go", "security/null/null.go"],
     [("handshake", "conn.go (Open, init, greet)"), ("framing and commands", "conn.go (SendMsg, SendCmd, RecvMsg, RecvCmd, read, send, seal), msg.go (Cmd)"), ("loss", "conn.go (checkIO, SetClosed, Closed)")],
     ["Open", "Conn.SendMsg", "Conn.SendCmd", "Conn.RecvMsg", "Conn.RecvCmd", "Conn.Read", "Conn.Write", "Conn.Close", "Conn.Closed", "Conn.Peer"])

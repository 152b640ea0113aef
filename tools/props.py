#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, claim=True, note="", na=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, claim=claim, note=note, na=na))

SCHED = "every interleaving of the socket's goroutines and the application's, every segmentation and delay of the byte stream"

prop("C01", "Integrity: a received message is exactly one that a connected peer sent",
     "Every message a socket's Recv returns equals, frame for frame and byte for byte, a message that a peer connected to that socket had passed to Send or SendMulti before (apart from the identity and delimiter frames its socket pattern adds or removes): no merged, split, truncated, corrupted or invented messages, whatever happens to connections, deadlines and schedules. What Recv returned does not change afterwards, and a synchronous sender (any type but PUB, XPUB and REP) may reuse its buffers once Send returned.",
     ["schedules", "fault_sequences", "inputs"],
     "for all patterns and transports, all message shapes (0 bytes to beyond 64 kB, 1 to several frames), " + SCHED + ", and all sequences of resets, cuts, stalls, partitions, expired deadlines and closes",
     "The tests send a few small messages over loopback connections that never break; concurrent senders, partial writes, connections lost in mid-message and expiring deadlines are not exercised.",
     ["conn.go", "msg.go", "msgio.go", "socket.go", "router.go", "rep.go", "req.go", "pub.go"],
     [("framing and serialisation of whole messages per connection", "conn.go (SendMsg, send, read)"), ("fair-queued readers and multi-writers", "msgio.go"), ("identity and delimiter frames", "router.go, rep.go, req.go")],
     ["Socket.Recv", "Socket.Send", "Socket.SendMulti"])

prop("C02", "Exactly once, in order, on connections that stay up",
     "As long as a connection stays up, every message for which Send returned success is received by each connected peer it is addressed to exactly once, and two messages of which one was sent completely before the other arrive in that order; a peer that joins later receives everything from some point on, without gaps. This holds for every pattern (PUB/SUB up to the high-water mark), also when receivers are slow or start late, links stall, several goroutines send, or a sender other than PUB, XPUB and REP closes its socket right after Send returned.",
     ["schedules", "inputs", "configurations"],
     "for all patterns and transports, " + SCHED + ", all stalls that end, all receiver speeds and all placements of Close after the last Send",
     "The tests check that a handful of messages arrive on an idle machine; loss under back-pressure, reordering between goroutines and loss at Close depend on schedules they do not control.",
     ["socket.go", "conn.go", "msgio.go", "pub.go", "router.go", "internal/inproc/conn.go"],
     [("reader goroutine per connection feeding a bounded queue", "msgio.go, router.go, pub.go"), ("multi-writer sends to all connections and waits", "msgio.go"), ("inproc byte pipe", "internal/inproc/conn.go")],
     ["Socket.Recv", "Socket.Send", "Socket.Close"])

prop("C03", "Isolation: a failing peer does not affect the others",
     "When the connection to one peer stalls, breaks, is refused, or its host crashes, the messages exchanged with all other peers are still delivered exactly once and in order, and every Send returns no later than the send deadline allows. A Send that reports an error because of a failing peer has still delivered its message to the healthy ones.",
     ["fault_sequences", "schedules"],
     "for all patterns with several peers, all faults on a proper subset of the links at all times, " + SCHED,
     "The tests do not inject connection faults while other peers are active.",
     ["msgio.go", "socket.go", "conn.go", "router.go", "pub.go", "internal/errgroup/errgroup.go"],
     [("per-connection send goroutines, joined with the deadline", "msgio.go"), ("reaper removes closed connections", "socket.go"), ("per-subscriber queue", "pub.go")],
     ["Socket.Recv", "Socket.Send"])

prop("C04", "Subscriptions decide exactly what a subscriber receives",
     "Once subscription changes and connections have settled, a SUB or XSUB socket receives exactly the published messages whose first frame starts with one of its current topics, each once and in order; at no time does it receive one that matches no topic it ever subscribed to. SUB.Topics() is the sorted set resulting from the subscribe and unsubscribe calls and PUB/XPUB.Topics() the union over the subscribers now connected, also after connections were lost and re-established or subscribers left while subscriptions changed concurrently (XSUB re-subscribes by itself).",
     ["schedules", "fault_sequences", "histories"],
     "for all histories of subscribe/unsubscribe/publish/join/leave by concurrent goroutines, all topic sets including nested prefixes and the empty topic, " + SCHED + ", and connection losses at any moment",
     "The tests subscribe once, before anything is published, and never lose a connection.",
     ["sub.go", "xsub.go", "pub.go", "xpub.go", "conn.go", "socket.go"],
     [("subscription state per connection at the publisher", "conn.go (subscribe, subscribed)"), ("topics re-sent to every new connection", "socket.go (addConn)"), ("filtering by prefix", "pub.go, conn.go")],
     ["SetOption(OptionSubscribe/OptionUnsubscribe)", "Topics()", "Recv"])

prop("C05", "A publisher never blocks and drops only beyond the high-water mark",
     "Send on a PUB socket returns promptly without error however slow or stuck its subscribers are. For each subscriber the socket keeps at least the high-water mark's number of undelivered messages, in order, and not more than that plus what the connection's buffers hold; it drops messages only for a subscriber whose queue is full, and that subscriber receives new messages again once it has caught up. A high-water mark that is refused changes nothing.",
     ["schedules", "fault_sequences", "configurations"],
     "for all high-water marks, message rates, subscriber speeds, link stalls and " + SCHED,
     "The tests check that the option can be set; whether messages are dropped too early, too late or for the wrong subscriber depends on back-pressure they never build up.",
     ["pub.go", "conn.go"],
     [("bounded queue per subscriber with drop on overflow", "pub.go (pubMWriter)")],
     ["Socket.Send", "SetOption(OptionHWM)", "Socket.Recv of the subscribers"])

prop("C06", "Every reply answers the request it was sent for",
     "A REQ socket's Recv returns only the reply to its own last request, and a DEALER talking to REP sockets only replies to its own requests, at most one per server; a REP socket hands out each request at most once and answers the requester it came from. A REQ connected to several servers takes them in turn. Without failures every request is answered; after any sequence of connection losses, stalls and server restarts, requests are answered again once the failures have stopped.",
     ["schedules", "fault_sequences", "histories"],
     "for all numbers of clients and servers, " + SCHED + ", all faults in mid-request and mid-reply, server crash and restart at any point",
     "The tests run one client and one server in lockstep; replies to stale requests and lost wake-ups appear only when connections break between request and reply.",
     ["req.go", "rep.go", "dealer.go", "router.go", "socket.go"],
     [("REQ remembers the connection of its last request", "req.go (reqState)"), ("REP remembers connection and envelope", "rep.go (repState)"), ("round robin over connections", "req.go (reqWriter)")],
     ["Socket.Send", "Socket.Recv"])

prop("C07", "ROUTER delivers to exactly the addressed peer and names the sender",
     "A message sent on a ROUTER socket reaches exactly the connected peer whose identity equals its first frame, once, and nobody if no peer has that identity (which is not an error); every message a ROUTER receives starts with the sender's identity, which is unique among generated ones and does not change while the peer's socket lives. After a peer's connection is lost and re-established it is addressable under the same identity again.",
     ["schedules", "inputs", "fault_sequences"],
     "for all sets of identities including prefixes of each other and generated ones, " + SCHED + ", reconnections included",
     "The tests use two or three fixed distinct identities and no reconnection.",
     ["router.go", "socket.go", "conn.go", "protocol.go"],
     [("identity exchanged as handshake metadata", "conn.go, protocol.go"), ("exact comparison of identities when routing", "router.go (routerMWriter.write)")],
     ["Socket.Send", "Socket.Recv"])

exec(open(os.path.join(here, "tools", "props2.py")).read()) if os.path.exists(os.path.join(here, "tools", "props2.py")) else None

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]
TECH = "deterministic simulation with fault injection: seeded random search over schedules, network behaviour and faults of the real code under a patched Go scheduler and clock, judged by a reference model over the recorded history"
m = {"version": 1, "setup_cmd": "sh check.sh build", "checks": [], "not_applicable": []}
for p in P:
    if p["claim"]:
        m["checks"].append({"property": p["id"], "quick_cmd": f"sh check.sh check -prop {p['id']} -tier quick", "thorough_cmd": f"sh check.sh check -prop {p['id']} -tier thorough",
            "technique": TECH, "level": "exploration", "level_note": p["note"] or "Sampled executions of the real code; see DESIGN.md for the oracle and the bounds of the generator."})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")

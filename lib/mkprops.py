#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the fields stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "Messages cross a connection frame for frame, in ZMTP 3.0 framing",
  "A message sent over an established connection is received with exactly the same frames, in the same order and with the same bytes, whatever the number and the sizes of its frames (empty frames and the short/long length boundary included), whether it was sent with Send or SendMulti and whether the security mechanism is NULL or PLAIN. The bytes on the wire are exactly the ZMTP 3.0 framing of those frames. Neither depends on how the network splits or coalesces reads.",
  ["inputs", "configurations"], "every message shape in a grid of frame counts and boundary sizes x {Send, SendMulti} x {NULL, PLAIN} x read splits, over the real sender and receiver",
  "Tests send a few short frames and never look at the wire; the length boundary, empty frames in each position and short reads are not enumerated.",
  ["conn.go", "msg.go", "security/plain/plain.go", "security/null/null.go"],
  [("frame writer", "conn.go send/sendMulti"), ("frame reader", "conn.go read"), ("security hooks", "security.go Encrypt/Decrypt")],
  ["Socket.Send/Recv", "Conn.SendMsg/RecvMsg", "bytes on the connection"])

p("C02", "Bytes from a peer never crash a socket or show up as a partial message",
  "Whatever bytes a peer sends after the handshake, and wherever its stream stops, every complete message before the fault is delivered unchanged, nothing is delivered that the peer did not completely send, and the process does not panic or allocate what an unreceived length field claims. Peers that behave, and later peers, are still served.",
  ["inputs", "fault_sequences"], "all streams built from a grammar of valid and invalid frames, with truncation at every byte and corruption of every header byte, for each kind of receiving socket",
  "Tests contain a handful of hand-written bad handshakes and no malformed traffic after the handshake.",
  ["conn.go", "msgio.go", "pub.go", "rep.go", "req.go", "router.go"],
  [("frame reader", "conn.go read"), ("per-connection reader loops", "msgio.go, pub.go, rep.go, router.go listen"), ("subscription parsing", "conn.go subscribe, pub.go topic")],
  ["Socket.Recv", "process survival"])

p("C03", "A connection is accepted exactly when the ZMTP handshake allows it",
  "Opening a connection succeeds on both sides exactly when both greetings are valid, the versions are at least 3.0, both use the same security mechanism, the handshake commands come in the order the mechanism prescribes and the two socket types may talk to each other; in every other case it fails with an error on the side that can see it, never a panic, and never counts as a connected peer. Both sides then know the other's socket type and identity exactly as sent.",
  ["inputs", "configurations"], "all ordered pairs of the eleven ZMTP socket types, mechanism pairs, single-byte corruptions of and truncations in every handshake byte, missing/unknown/duplicate/oversized metadata, wrong or reordered commands, both roles",
  "Tests try a dozen combinations; corruption and truncation at each byte and most type pairs are not tried.",
  ["conn.go", "protocol.go", "socket_types.go", "null_security.go", "security/null/null.go", "security/plain/plain.go"],
  [("greeting", "conn.go greet, protocol.go greeting"), ("security handshake", "null_security.go, security/*/Handshake"), ("compatibility table", "socket_types.go IsCompatible")],
  ["Open", "Conn.Peer", "Socket.Dial"])

p("C04", "Commands and metadata round-trip exactly and reject malformed input",
  "Every command (name of 0 to 255 bytes, any body) and every metadata map that can be encoded is decoded by the peer to the same name, body, keys (in ZMTP's spelling) and values, of any length; a name that does not fit is refused rather than truncated. Decoding any byte string either yields exactly what it encodes or an error, without panic, and Conn.RecvMsg answers PING by PONG.",
  ["inputs"], "all command names/bodies and metadata maps in a boundary grid, all byte strings up to a length over a small alphabet, and every truncation of valid encodings, against an independent decoder",
  "Tests check a few round trips and errors; lengths 255/256, truncations and values longer than one buffer are not covered.",
  ["msg.go", "protocol.go", "conn.go"],
  [("command codec", "msg.go Cmd marshal/unmarshal"), ("metadata codec", "protocol.go Metadata/Property"), ("ping", "conn.go RecvMsg")],
  ["Conn.SendCmd/RecvCmd/RecvMsg", "Metadata.MarshalZMTP/UnmarshalZMTP", "Property.Read/Write"])

p("C05", "Messages arrive whole, once per connected peer and in order",
  "On PUSH/PULL, PAIR and DEALER sockets, every message that Send accepted is received exactly once, with its frames together, by each peer that was connected then and stays connected (these sockets send to all their peers); messages sent by one goroutine arrive in the order they were sent, and frames of messages sent concurrently are never mixed. A receiver with several peers merges their streams without losing, duplicating or reordering any of them.",
  ["schedules", "configurations"], "all interleavings within the deviation bound of 1-3 senders, 1-2 receivers, small socket buffers, and connections made before or during the sends",
  "A test run samples one schedule; mixing of frames needs particular preemptions between two writes.",
  ["msgio.go", "socket.go", "conn.go", "push.go", "pull.go", "pair.go", "dealer.go"],
  [("writer pool", "msgio.go mwriter"), ("reader pool", "msgio.go qreader"), ("connection set-up", "socket.go addConn")],
  ["Socket.Send", "Socket.Recv"])

p("C06", "A subscriber gets exactly the messages its subscriptions match, in order",
  "A connected SUB or XSUB peer of a PUB or XPUB socket receives exactly the messages whose first frame begins with one of the topics it is subscribed to when they are published, each once and in publishing order, as long as the queue limit is not exceeded; after an unsubscription has taken effect it gets no more for that topic. Topics() on both sides is the sorted set of current subscriptions.",
  ["schedules", "histories", "inputs"], "all subscribe/unsubscribe/publish histories up to a depth over a set of nested topics, and all interleavings within the deviation bound of concurrent subscriptions, publications and connections",
  "Tests use two or three fixed topics with sleeps; overlapping prefixes, the empty topic, repeated (un)subscription and races with connecting are not enumerated.",
  ["pub.go", "sub.go", "xpub.go", "xsub.go", "conn.go", "socket.go"],
  [("filter", "conn.go subscribe/subscribed"), ("fan-out", "pub.go pubMWriter"), ("subscription upcalls", "sub.go SetOption, socket.go addConn")],
  ["Socket.Recv", "Topics.Topics"])

p("C07", "A slow subscriber never delays the publisher or the other subscribers",
  "Send on a PUB or XPUB socket returns without waiting for any subscriber, even one that never reads; for such a subscriber messages are dropped whole, those it does get are in order without duplicates, and at least the high-water mark configured on a PUB socket (1000 otherwise) of them are kept. Every other subscriber still receives everything it subscribed to.",
  ["schedules", "fault_sequences", "configurations"], "all interleavings within the bound with one stalled and one live subscriber, high-water marks 0 to 4, and message counts around them",
  "The existing back-pressure test uses one subscriber and the default limit; stalls at particular points and the boundary of the limit are not explored.",
  ["pub.go", "xpub.go"], [("per-subscriber queue", "pub.go pubMWriter addConn/write"), ("high-water mark", "pub.go SetOption")],
  ["Socket.Send", "Socket.Recv"])

p("C08", "Every reply reaches the peer whose request it answers, unchanged",
  "A REP socket receives each request exactly as sent (any number of frames, empty ones included), and its reply goes only to the requester whose request it received last, through as many ROUTER/DEALER hops as there are, with the envelope restored and the body unchanged. When requests and replies alternate, a REQ socket's Recv returns the reply to its own last request, exactly as the replier sent it.",
  ["schedules", "inputs", "configurations"], "all body shapes in a grid of frame counts and empty-frame positions, with 0-2 intermediate hops, 1-3 clients, and all interleavings within the bound",
  "Tests exchange one or two fixed single-frame bodies sequentially.",
  ["req.go", "rep.go", "router.go", "dealer.go"],
  [("envelope", "rep.go splitReq/buildReplyMsg, req.go write/read"), ("reply routing", "rep.go repState/repWriter, router.go")],
  ["Socket.Send", "Socket.Recv"])

p("C09", "REQ spreads requests over live servers and never fails while one is up",
  "A REQ socket connected to several servers sends each request to exactly one of them, taking them in turn while its connections stay the same, and skips servers whose connection is found broken, so that Send succeeds as long as one connection works and fails with an error (never a panic) when none does.",
  ["fault_sequences", "schedules", "histories"], "all subsets and positions of broken connections among 1-4 servers, all sequences of requests up to a depth, and server loss at every point within the bound",
  "The multi-server test breaks servers in one order; index arithmetic depends on which connection fails at which rotation.",
  ["req.go", "socket.go"], [("rotation and failover", "req.go reqWriter.write"), ("removal", "req.go rmConn, socket.go reaper")],
  ["Socket.Send", "Socket.Recv"])

p("C10", "ROUTER labels each message with its sender and routes only to the addressee",
  "A message received from a ROUTER socket starts with the identity of the peer that sent it, distinct per peer when peers chose no identity; sending a message that starts with an identity delivers the remaining frames, unchanged, exactly once to the peer with that identity and to nobody else. Once a peer has connected, a message for an unknown identity is dropped without error, panic or effect on others.",
  ["schedules", "inputs", "configurations"], "all assignments of 1-3 peers (chosen, empty and long identities), all send orders up to a depth and all interleavings within the bound",
  "Tests use two dealers with fixed identities and one order.",
  ["router.go", "socket.go", "dealer.go", "socket_types.go"],
  [("labelling", "router.go routerQReader.listen"), ("routing", "router.go routerMWriter.write"), ("identity assignment", "socket.go addConn")],
  ["Socket.Recv", "Socket.Send"])

p("C11", "Close always completes, frees everything and ends pending operations",
  "Close of any socket returns, whatever else is going on; once it has returned, every pending or later Send, Recv, Listen and Dial on that socket ends with an error instead of blocking, the listening address can be used again, the peer sees its connection end, and no goroutine, connection or socket file of that socket remains. Closing a second time reports an error and has no other effect.",
  ["schedules", "configurations", "histories"], "all twelve socket kinds x {idle, connected, blocked in Recv, full queues, handshake in progress, dialing, peer closing} and all interleavings within the bound",
  "The leak tests close one quiet PULL socket; a leak needs a full queue or a connection arriving while Close runs.",
  ["socket.go", "msgio.go", "pub.go", "rep.go", "router.go", "req.go"],
  [("close", "socket.go Close"), ("accept loop", "socket.go accept"), ("reader loops", "listen functions"), ("reaper", "socket.go connReaper")],
  ["Socket.Close", "goroutines and connections left at quiescence"])

p("C12", "Timeouts and cancellation end operations on time and leave streams intact",
  "A Send that cannot proceed returns an error when the socket's timeout has passed, and cancelling the context a socket was created with ends its blocked Send, Recv and Dial with an error. Neither corrupts what the peer receives: messages before and after a timed-out Send still arrive whole and in order, and a Send to a connected peer that returned without error was really sent.",
  ["schedules", "fault_sequences"], "stalled peers at every position of the stream x cancellation or timeout at every scheduling point within the bound, in virtual time",
  "Tests check that a time-out error appears; what the peer then receives depends on what the abandoned write does later.",
  ["socket.go", "msgio.go", "internal/errgroup/errgroup.go", "conn.go"],
  [("deadline contexts", "socket.go Send"), ("abandoning writers", "internal/errgroup wrap"), ("semaphore", "msgio.go semaphore.lock")],
  ["Socket.Send", "Socket.Recv", "Socket.Dial"])

p("C13", "Lost connections are noticed, removed and re-established as configured",
  "When a connection breaks, the socket stops using it and keeps serving its other peers; a socket that dialed it with automatic reconnection dials the same endpoint again, resubscribes and resumes, while one without it, or one that accepted the connection, does not dial anything. Dial tries exactly the configured number of times, spaced by the configured delay, and nothing of this can deadlock or panic whatever operation noticed the loss.",
  ["fault_sequences", "schedules", "configurations"], "connection loss at every scheduling point within the bound x {reconnect on, off} x {reader, writer, subscriber} x listener restarts and 0 to 3 failed dial attempts",
  "The reconnection tests break one connection at a quiet moment; the deadlock needs the loss to be noticed inside a write.",
  ["socket.go", "conn.go", "pub.go", "sub.go", "options.go"],
  [("loss detection", "conn.go checkIO/SetClosed"), ("reconnection", "socket.go scheduleRmConn/Dial"), ("reaper", "socket.go connReaper")],
  ["Socket.Send/Recv", "connections dialed", "goroutines left"])

p("C14", "inproc connections behave as reliable ordered byte streams",
  "Bytes written to one end of an inproc connection come out of the other end unchanged, complete and in order, whatever the sizes of the writes and of the reads, and the writer may reuse its buffer as soon as Write returns. Closing either end ends blocked reads and writes on both, deadlines expire on time and can be renewed, and sockets over inproc carry the same messages as over tcp; a second listener on an address is refused, dialing an address without listener is refused, and each dial is matched with one accept.",
  ["schedules", "inputs", "histories"], "all sequences of write and read sizes in a grid, all orders of close/deadline/read/write, and all interleavings within the bound of listeners, dialers and accepts",
  "The package tests use equal write and read sizes and one order of closing.",
  ["internal/inproc/conn.go", "internal/inproc/inproc.go", "internal/inproc/transport.go"],
  [("pipe", "internal/inproc/conn.go"), ("rendez-vous", "internal/inproc/inproc.go Accept/Dial")],
  ["net.Conn and net.Listener of inproc", "Socket over inproc://"])

p("C15", "A proxy forwards every message unchanged and in order, both ways",
  "While Proxy runs, every message received on one side is sent on the other exactly once, unchanged and in the order received, in both directions, so that request/reply through a ROUTER-DEALER proxy behaves as a direct connection. Proxy returns an error when a side fails or a socket is missing, and not before.",
  ["schedules", "configurations"], "PAIR, DEALER, ROUTER-DEALER and XSUB-XPUB proxies with 1-3 clients and one worker, multi-frame bodies, all interleavings within the bound, and closing either side at every point",
  "Tests run one message in one direction.",
  ["proxy.go"], [("forwarding loops", "proxy.go Proxy")], ["Proxy", "Socket.Recv at the far ends"])

p("C16", "The message queue is an exact FIFO of any length",
  "After any sequence of operations on a queue, Len is the number of elements pushed and not popped, Peek shows the oldest one without removing it, Pop removes exactly it, and Init empties the queue; this holds across its internal chunk boundary and for any interleaving of pushes and pops. Peek of an empty queue says so, and Pop of an empty queue panics and changes nothing.",
  ["histories"], "all operation sequences up to a depth, started from every fill level around the internal chunk boundaries, compared with a reference list",
  "The tests push then pop in a few fixed patterns.",
  ["queue.go"], [("chunked list", "queue.go")], ["Queue methods"])

p("C17", "The peer transport delivers each message once to the right handler",
  "A direct message sent to a connected peer reaches only that peer, and a broadcast reaches every peer that connected to the sender, each once and with its type, session, height, round and data (as a JSON value) unchanged and its sender filled in; it is given to the handler registered for its type and counted as received, malformed input is counted as dropped, and every send is counted. Connecting twice changes nothing, disconnecting forgets exactly that peer, sends to unknown peers fail after the configured retries, and Stop, however often it is called, returns, releases everything and leaves no goroutine.",
  ["schedules", "histories", "inputs"], "all histories of connect/disconnect/send/broadcast/register up to a depth with 2-3 nodes, and all interleavings within the bound with Stop at any point",
  "There is no test of this package.",
  ["networking/transport.go"],
  [("dispatch", "networking/transport.go processMessage"), ("peers", "ConnectPeer/DisconnectPeer"), ("life cycle", "Start/Stop")],
  ["Transport methods", "handler calls"])

p("C18", "Sockets may be used from several goroutines without data races",
  "Concurrent use of one socket (sending, receiving, listening, dialing, changing subscriptions and options, reading Topics, Addr, Type and closing, each from its own goroutine), together with connections arriving and breaking, involves no data race, no panic and no deadlock.",
  ["schedules", "configurations"], "every pair of operations on each kind of socket, all interleavings within the bound, with the race detector watching each",
  "The race detector sees only schedules that happen; the tests hardly share sockets between goroutines.",
  ["socket.go", "msgio.go", "conn.go", "pub.go", "sub.go", "req.go", "rep.go", "router.go", "security/plain/plain.go"],
  [("socket lock", "socket.go mu"), ("pool locks", "msgio.go, pub.go, req.go, rep.go, router.go"), ("reaper lock", "socket.go reaperCond")],
  ["race detector reports", "deadlock"])

p("C19", "Endpoints and transports are resolved by one consistent rule",
  "An endpoint is usable exactly when it has the form transport://address with a registered transport and an address that transport accepts; every other string gives an error from both Listen and Dial, which leaves the socket usable. Registering a transport makes it usable at once under its name and listed exactly once, in sorted order; registering a name twice is refused and keeps the first, and all of this holds under concurrent registration and lookup. The listener's Addr is where peers can connect.",
  ["inputs", "schedules", "histories"], "all endpoint strings over a token grammar up to a length, all registration histories up to a depth, and all interleavings within the bound of registration, listing and use",
  "Tests register one transport and try a few bad addresses.",
  ["transport.go", "transport/transport.go", "utils.go", "socket.go", "internal/inproc/transport.go"],
  [("registry", "transport.go transports"), ("address parsing", "utils.go splitAddr, transport/transport.go Addr")],
  ["RegisterTransport", "Transports", "Socket.Listen/Dial/Addr"])

p("C20", "Messages belong to whoever holds them",
  "Sending does not modify the message, and once Send on a PUSH, PAIR, DEALER, REQ or ROUTER socket has returned without error the caller may reuse it; a received message shares no memory with any other received message or with anything the library still uses, and Clone is a deep copy with equal frames. Changing one recipient's copy never changes what another goroutine or recipient sees.",
  ["schedules", "inputs"], "all socket kinds and transports x mutation of the sent or received message right after the call x all interleavings within the bound",
  "Tests never touch a message after handing it over.",
  ["msg.go", "req.go", "rep.go", "router.go", "conn.go", "internal/inproc/conn.go"],
  [("frame ownership", "conn.go read, router.go listen, internal/inproc/conn.go write"), ("clone", "msg.go Clone")],
  ["Msg frames after Send/Recv/Clone"])

p("C21", "A security mechanism sees every frame once, and what it writes is what travels",
  "With any user-supplied Security, every frame of every message and command passes through Encrypt exactly once, in the order of the wire, and through the peer's Decrypt exactly once, in that order; the frame on the wire is exactly what Encrypt wrote, framed by its own length (which may differ from the plain text's), and what is received is exactly what Decrypt wrote. A message Encrypt refuses makes Send fail (PUB and XPUB drop it) and leaves nothing on the wire, so that later messages still arrive intact. A frame Decrypt refuses is never delivered, nor is anything after it on that connection, which ends like a broken one, while other peers are served. A handshake the mechanism refuses never makes a peer.",
  ["inputs", "schedules", "faults"], "mechanisms that keep, lengthen, shorten, split and number frames x message shapes around the length boundary x refusals at every frame position x socket kinds, and all interleavings within the bound of concurrent senders",
  "Tests know only NULL and PLAIN, which leave every frame as it is.",
  ["conn.go", "security.go", "security/plain/plain.go", "socket.go"],
  [("encryption of frames", "conn.go SendMsg, SendCmd, sendMulti, send"), ("decryption", "conn.go read"), ("handshake", "conn.go init")],
  ["Security.Encrypt/Decrypt calls", "bytes on the wire", "Send/Recv"])

p("C22", "A socket that is not read holds its senders back and loses nothing",
  "What peers send to a PULL, PAIR, DEALER, ROUTER, REP, SUB, XSUB or XPUB socket whose application does not receive is neither dropped nor taken in without limit: after a bounded number of messages (at most some thousands) the socket stops reading the connection and the sender is held back. When the application receives again, every message comes out complete, once and in each sender's order, including those of a peer that has left after sending, and the held-back senders go on without further delay. Close returns and ends the connections even when everything is full.",
  ["schedules", "histories"], "floods of thousands of messages against a reader that pauses; all interleavings within the bound of two senders, pauses of the reader, buffers of a few bytes, departures and Close while every queue is full",
  "Tests receive at once; no test lets a queue fill.",
  ["msgio.go", "rep.go", "router.go", "pub.go", "xpub.go"],
  [("receive queues", "msgio.go qreader, router.go routerQReader, rep.go repReader, pub.go pubQReader")],
  ["Recv", "progress of the senders"])

p("C23", "A faulty or silent peer does not hold up the others",
  "Whatever a peer does, whether it never completes the handshake, falls silent in the middle of a header, frame or message, or stops reading what a socket sends it, other peers can connect to that socket, be dialed by it, exchange messages with it (a REP or ROUTER still answers them, a PUB still publishes to them, a PULL still receives from them) and leave, all without waiting for the faulty peer. Only a Send addressed to the faulty peer itself waits for it (PUSH, PAIR and DEALER address all their peers, REQ its current server), and even then the other addressees have the message.",
  ["schedules", "faults"], "a peer that stops at every interesting byte of the handshake and of a message, or stops reading after any byte, beside peers that come, talk and go, for every kind of socket and both directions of connection, in all interleavings within the bound, on a virtual clock that must not advance",
  "Tests have no faulty peers.",
  ["socket.go", "conn.go", "msgio.go", "rep.go", "router.go", "pub.go"],
  [("accept loop", "socket.go accept"), ("per-peer writers", "rep.go repWriter, router.go routerMWriter, msgio.go mwriter, pub.go pubMWriter"), ("readers", "msgio.go qreader")],
  ["Listen/Dial/Send/Recv of the socket", "virtual time"])

p("C24", "STREAM sockets carry raw bytes in both directions",
  "A STREAM socket speaks no ZMTP: what the peer reads is exactly the bytes of the frames sent, in the order of the Sends, the frames of one message together even when several goroutines send. The frames received, put together, are exactly the bytes the peer wrote, in order, without loss, addition or repetition, however the network splits them; a message is a first frame of five bytes and a second with what follows (up to 8192 bytes), so that at most five bytes wait for more, and at the end of the stream at most the four that do not fill the first frame are missing.",
  ["inputs", "schedules"], "sizes around every limit x both directions x splits of the stream x every short read, and all interleavings within the bound of two senders, over tcp, ipc and inproc",
  "No test sends a byte through a STREAM socket.",
  ["conn.go", "stream.go"],
  [("raw writing", "conn.go sendStream"), ("raw reading", "conn.go readStream")],
  ["bytes on the wire", "Recv"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))

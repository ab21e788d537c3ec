ACC = ["acceptor.go", "auth/authenticator.go", "auth/helpers.go", "auth/wampcra.go", "auth/cryptosign.go", "auth/ticket.go"]

PROPS += [
P("C12", "Nobody is welcomed without proof, and only as whom the user database says",
  "A router welcomes a client only if the client asked for a method the router allows and the user database accepted it for exactly the realm and authid it asked for: for ticket, WAMP-CRA and cryptosign only after an answer that proves the credential against the one challenge sent on that connection, in one attempt; replayed, forwarded, truncated and altered answers are refused. "
  "The session's realm, authid, role and method are those the user database returned, in the WELCOME and in the router's record alike. "
  "WAMP-CRA secrets, keys derived from them and private keys never appear in any message.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all handshakes of honest clients and of an attacker that sees, keeps, replays, mutates and forges messages on any number of connections at once",
  "the tests run one honest handshake per method and one wrong signature; an attacker's choices and parallel handshakes are not sampled",
  ACC, [("verification of AUTHENTICATE against the challenge kept", "Acceptor.ReceiveMessage"), ("signature checks", "auth.VerifyWAMPCRASignature, auth.VerifyCryptoSignSignature")],
  [("handshake state", "none, challenged, welcomed, aborted", "Acceptor.state")], ["Acceptor.Receive", "Acceptor.SessionDetails", "Joiner.Receive"]),
P("C13", "A handshake goes through its steps once, in order, and its end is final",
  "On either side a handshake message is taken only in the step it belongs to: HELLO first and once, then a challenge and its answer where the method needs them, then WELCOME or ABORT; anything else, at any point, is an error or an ABORT and never a crash. "
  "Session details exist exactly from the WELCOME on and never change; after a WELCOME or an ABORT nothing received reopens or alters it.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of messages of every type, duplicated, reordered, altered or torn, at every step of the handshake on both sides",
  "the tests send the messages in the right order",
  ["acceptor.go", "joiner.go"], [("state machines", "Acceptor.ReceiveMessage, Joiner.ReceiveMessage")],
  [("state", "step of the handshake", "Acceptor.state, Joiner.state")], ["Acceptor.Receive", "Joiner.Receive"]),
P("C14", "An honest client with valid credentials gets in, and both sides then agree",
  "A client that follows the protocol, with credentials the user database accepts and a method the router allows, is welcomed whichever serializer, method, salt, iteration count, key length, realm or authid it uses, and one with wrong credentials is told that it is refused. "
  "Once joined, client and router agree on session id, realm, authid, role and method, the session id of a WAMP-CRA challenge is the one of its WELCOME, and the client's announced extra data arrives unchanged, and each side announces the roles it plays with the features it is built for. "
  "No outcome leaves one side joined and the other not, as long as messages get through.",
  ["inputs", "configurations", "schedules"],
  "all credentials, methods, method lists, serializers, realms and latencies",
  "the tests use one fixed user per method",
  ACC + ["joiner.go"], [("two ends of the same computation", "auth client authenticators and Acceptor")],
  [], ["Acceptor.SessionDetails", "Joiner.SessionDetails"]),
P("C15", "Every challenge is fresh and unpredictable, or there is none",
  "No two challenges are ever equal, whatever the clock does and however many handshakes run at once, and every challenge depends on at least 128 bits from the operating system's entropy source. "
  "When that source fails the client is refused; it never gets a challenge made from less. Key pairs that the library generates are no less fresh: none comes twice, each depends on the entropy source alone, and there is none when it fails.",
  ["histories", "fault_sequences", "schedules"],
  "all numbers of handshakes, clocks that stand still or jump back, entropy sources that fail or deliver short at any call",
  "the tests look at one challenge; the entropy source never fails there and the clock always moves",
  ["auth/cryptosign.go", "auth/wampcra.go"], [("nonce generation", "auth.GenerateCryptoSignChallenge, auth.GenerateWAMPCRAChallenge")],
  [], ["Acceptor.Receive"]),
P("C16", "A client session takes each reply once, and only for a request it made",
  "A reply reaches the application if and only if a request of that kind with that id was sent and is still unanswered; progressive results keep a call open, its final result or its error closes it, and every other reply is an error with no effect. "
  "A message that could not be encoded was not sent and leaves no trace: its id is free and a reply to it is refused. "
  "Only messages a client may send can be sent, and none is altered on the way in or out.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of requests and replies of every kind, due, duplicated, late, of the wrong kind or never asked for, with encoding and decoding failures at any point",
  "the tests answer each request once, correctly",
  ["session.go"], [("tables of outstanding requests", "Session.SendMessage, Session.ReceiveMessage")],
  [("outstanding requests", "per kind", "Session maps")], ["Session.SendMessage", "Session.Receive"]),
P("C17", "A client session hands on events and calls only for what it holds",
  "An event reaches the application if and only if its subscription is held, and an invocation if and only if its registration is held or it continues an invocation that is already open. "
  "A subscription or registration is held from the moment its confirmation is received until the confirmation that it ended; an unsubscribe for what is not held is refused before it is sent.",
  ["histories", "inputs", "fault_sequences"],
  "all interleavings of subscribe, unsubscribe, register, unregister, their confirmations and errors, events and invocations, with ids reused and confirmations lost or duplicated",
  "the tests subscribe once and receive one event",
  ["session.go"], [("tables of what is held", "Session.ReceiveMessage")],
  [("subscriptions and registrations held", "", "Session maps")], ["Session.Receive"]),
P("C18", "Session ids of one scope come one after the other, none twice, for any callers",
  "A session-scope generator yields 1, 2, 3 and so on up to 2^53 and then 1 again, whichever threads draw from it and however they interleave: no id is skipped, none is repeated before all others have been used, and an id drawn after another was handed out follows it. "
  "Drawing ids never blocks for good and is free of data races.",
  ["schedules", "histories"],
  "all interleavings of any number of threads on shared generators, from every position including the wrap-around",
  "the test draws a few ids from one goroutine",
  ["idgen.go"], [("counter", "SessionScopeIDGenerator.NextID")], [("counter", "last id", "SessionScopeIDGenerator")], ["SessionScopeIDGenerator.NextID"]),
P("C19", "Random ids stay within 1..2^53, use the whole range and differ across processes",
  "A session id lies between 1 and 2^53 for every outcome of the random source, its extremes included, and ids are spread over that whole range. "
  "Two processes, or two starts of one, do not draw the same ids even if they start at the same instant.",
  ["inputs", "configurations", "histories"],
  "all outcomes of the random source, clocks and process starts",
  "the tests draw ids from one process with one clock and do not look at the extremes",
  ["idgen.go", "acceptor.go"], [("random id", "GenerateID")], [], ["GenerateID", "SessionDetails.ID"]),
P("C21", "Hostile bytes and messages crash nothing, exhaust nothing, disturb nobody",
  "No sequence of bytes or of well-formed but senseless messages, from any peer at any time, makes router, client, handshake or decoders panic, hang or take memory out of proportion to the bytes received. "
  "The peer gets an error and the sessions of everybody else keep working as before.",
  ["inputs", "histories", "fault_sequences"],
  "all byte strings given to each serializer, to payload decoders and to the rawsocket readers, and all message contents and types given to router, client, acceptor and joiner in every state",
  "the tests decode what they encoded",
  ["messages/validator.go", "serializers/", "dealer.go", "broker.go", "session.go", "acceptor.go", "joiner.go", "transports/rawsocket.go"],
  [("validation before use", "messages validation, serializers' Deserialize")], [], ["Serializer.Deserialize", "Dealer.ReceiveMessage", "Broker.ReceiveMessage"]),
P("C22", "Rawsocket framing delivers exactly what was sent, or says that it did not",
  "Handshakes and frame headers are byte for byte those of the WAMP rawsocket specification, for every serializer, size limit, frame kind and length, so that peers of any implementation agree on them. "
  "The frames that come out of a connection are a prefix of those that went in, unchanged, in order, whatever way the stream is cut up, and all of them if it is not cut off; a torn or garbled header or handshake, a refusal and a torn message are reported as such and never taken for something else.",
  ["inputs", "fault_sequences", "configurations"],
  "all serializers, sizes, frame kinds and payload lengths, all segmentations and cut points of the stream, all damaged handshakes and headers",
  "there is no test of the transport",
  ["transports/rawsocket.go"], [("handshake and headers", "transports.SendHandshake, ReceiveHandshake, SendMessageHeader, ReceiveMessageHeader")], [], ["transports.ReceiveHandshake", "transports.ReceiveMessageHeader"]),
P("C23", "Concurrent use of a Dealer looks like one operation after the other",
  "Whatever attaches, leaves, registers, unregisters, calls, yields, fails and asks at the same time from different threads, there is one order of these operations, in keeping with which finished before which began, that explains every result as if they had run alone. "
  "There are no data races, deadlocks or crashes.",
  ["schedules"],
  "all interleavings, at statement granularity, of operations on one Dealer from several threads",
  "the tests use the dealer from one goroutine",
  DEALER, [("one lock around each operation", "Dealer")], [("all of it", "", "Dealer")], ["Dealer.ReceiveMessage", "Dealer.RemoveSession", "Dealer.HasProcedure"]),
P("C24", "Concurrent use of a Broker looks like one operation after the other",
  "Whatever attaches, leaves, subscribes, unsubscribes, publishes and asks at the same time from different threads, there is one order of these operations, in keeping with which finished before which began, that explains every result as if they had run alone. "
  "There are no data races, deadlocks or crashes, and no two publications ever get the same id.",
  ["schedules"],
  "all interleavings, at statement granularity, of operations on one Broker from several threads",
  "the tests use the broker from one goroutine",
  BROKER, [("one lock around each operation", "Broker")], [("all of it", "", "Broker")], ["Broker.ReceiveMessage", "Broker.ReceivePublish", "Broker.RemoveSession"]),
P("C25", "Concurrent use of a client session looks like one operation after the other",
  "Whatever is sent and received through one client session at the same time from different threads, there is one order of these operations, in keeping with which finished before which began, that explains every result as if they had run alone; in particular of several copies of a reply exactly one is taken. "
  "There are no data races, deadlocks or crashes.",
  ["schedules"],
  "all interleavings, at statement granularity, of sends and receives on one session from several threads",
  "the tests use the session from one goroutine",
  ["session.go"], [("concurrent maps of outstanding requests", "Session"), ("concurrent map", "internal/map.go")], [("outstanding requests and what is held", "", "Session maps")], ["Session.SendMessage", "Session.Receive"]),
P("C27", "Time stamps of challenges and sessions tell the time of the moment they are made",
  "The time stamp in a WAMP-CRA challenge, and the creation time in the details of a session, is a valid ISO 8601 time with an explicit offset that denotes the moment the challenge or session was made to the second or better, whatever time zone the router runs in and however its clock jumps.",
  ["configurations", "fault_sequences", "inputs"],
  "all clock values, clock jumps and time zones",
  "the tests format one fixed time, in one zone",
  ["auth/iso8601.go", "auth/wampcra.go"], [("formatting", "auth.NowISO8601, auth.FormatISO8601")], [], ["Acceptor.Receive"]),
P("C28", "Parts used by many connections at once do not interfere",
  "One serializer, one authenticator, one user database or one message may be used by any number of threads at once, and each gets the result it would get alone: no result is mixed with another's, no message handed to two encoders changes, no challenge or random id comes twice. "
  "There are no data races, deadlocks or crashes.",
  ["schedules", "inputs"],
  "all interleavings, at statement granularity, of encoding, decoding, handshakes, signing and id generation on shared objects",
  "the tests use each object from one goroutine",
  ["serializers/", "messages/", "auth/", "idgen.go", "transports/rawsocket.go"], [("stateless encoders, buffers of their own", "serializers, messages")], [], ["Serializer.Serialize", "Serializer.Deserialize"]),
P("C29", "On the wire every message is what the WAMP specification says it is",
  "Every message goes out as the list the WAMP specification prescribes (type code, fields in order, dictionaries never null, payload left out only from the end) in valid JSON, CBOR or MessagePack, so that peers of other implementations understand it. "
  "Every such list that another implementation may send, in any of the forms these formats allow for the same values, is understood as exactly that message, and what is no such list (wrong types, numbers that are no ids, fields missing or too many, bytes missing or left over) is refused and never taken for a message.",
  ["inputs", "configurations", "fault_sequences"],
  "all messages of the 24 kinds with all payload shapes, all encodings of them another implementation may choose, all segmentations and cuts of the stream",
  "the tests decode what the same library encoded, so that a mistake made on both sides cancels out",
  ["messages/", "serializers/", "transports/rawsocket.go"], [("layout of each message", "Marshal and Parse of each message"), ("formats", "serializers")], [], ["Serializer.Serialize", "Serializer.Deserialize"]),
P("C30", "What is over is let go of",
  "A router, a client session and the shared parts (user database authenticators, serializers, id generators) can be used for ever: what they keep in memory depends on the sessions, registrations, subscriptions and requests that are live, and not on how many there have been. "
  "Once a session has left, a registration or subscription has been given up, a request has been answered or refused, an invocation has been answered or its caller or callee has gone, a handshake has ended or was abandoned, or a message has been handled or found senseless, nothing of it stays behind.",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "all ways in which sessions, requests, registrations, subscriptions, handshakes and messages come to an end, any number of times over, with departures and cuts at any point",
  "a test makes a handful of requests, and what a single one leaves behind shows in no reply",
  ["dealer.go", "broker.go", "session.go", "acceptor.go", "joiner.go", "auth/", "serializers/"], [("entries removed at the end of what they stand for", "Dealer, Broker and Session maps, prefix trees")], [("tables", "what is live", "fields of Dealer, Broker, Session")], ["heap in use after collection"]),
]

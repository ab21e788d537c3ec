package main

type engine struct {
	gen func(prop string, seed uint64, tier string) *Plan
	run func(p *Plan, trace bool) *Result
}

type propDef struct {
	engine   string
	quick    int // runs
	thorough int
	race     bool
	rule     string
	real     string
	stub     string
	assume   []string
}

var engines = map[string]engine{
	"world":      {genWorld, runWorld},
	"auth":       {genAuthOrFresh, runAuth},
	"fresh":      {genAuthOrFresh, runFresh},
	"client":     {genClient, runClient},
	"routerconc": {genRouterConc, runRouterConc},
	"sessconc":   {genSessConc, runSessConc},
	"ids":        {genIDs, runIDs},
	"raw":        {genRaw, runRaw},
	"hostile":    {genHostile, runHostile},
	"shared":     {genShared, runShared},
	"wire":       {genWire, runWire},
	"endure":     {genEndure, runEndure},
	"globalids":  {genGlobalIDs, runGlobalIDs},
}

const worldReal = "Dealer, Broker, SessionDetails, SessionScopeIDGenerator, all message types; in wire-mode runs also client Session, JSON/CBOR/MsgPack serializers, rawsocket headers"
const worldStub = "links (ordered, latency, cut), clients' application code, the router's dispatch loop, clock, map order and random numbers; static (binary payload) serializers are a stub"

func worldProp(quick int, rule string) propDef {
	return propDef{engine: "world", quick: quick, thorough: quick * 60, real: worldReal, stub: worldStub,
		rule: "one run = one seeded plan of client actions, latencies and faults against a fresh router; distinct = different history at the router's boundary; non-trivial = " + rule}
}

var props = map[string]propDef{
	"C01": worldProp(80000, "at least one call was routed or answered by the router and compared with the reference model"),
	"C02": worldProp(80000, "at least one reply or invocation was compared with the reference model"),
	"C03": worldProp(80000, "at least one registration event, probe or call was compared with the reference model"),
	"C04": worldProp(80000, "at least one call was compared with the precedence the model computes"),
	"C05": worldProp(50000, "at least one registration or invocation was judged against its policy"),
	"C06": worldProp(50000, "at least one chunk or first invocation was judged"),
	"C07": worldProp(80000, "at least one publication's recipients were compared with the model"),
	"C08": worldProp(80000, "at least one subscription event, probe or publication was compared with the model"),
	"C09": worldProp(80000, "at least one publication's acknowledgement and ids were judged"),
	"C10": worldProp(80000, "at least one invocation's or event's details were judged"),
	"C20": worldProp(50000, "at least one message crossed the real encoders, framing and client session and was compared"),
	"C26": worldProp(50000, "at least one request's reply was awaited"),
	"C11": worldProp(80000, "at least one arrival, departure, straggler or recipient was judged"),

	"C12": authProp(40000, "at least one handshake message was judged by the independent verifier"),
	"C13": authProp(40000, "at least one handshake message's effect was compared with the state the model is in"),
	"C14": authProp(40000, "at least one handshake or challenge was compared on both sides"),
	"C15": authProp(40000, "at least one challenge was issued and compared with the others or with the entropy it came from"),
	"C16": clientProp("at least one reply, or request, was judged"),
	"C17": clientProp("at least one event or invocation was judged"),
	"C18": concProp("ids", "SessionScopeIDGenerator"),
	"C19": {engine: "globalids", quick: 60000, thorough: 4000000, real: "GenerateID, Acceptor's session ids", stub: "math/rand, entropy source, clock, process start (child processes with the same clock and entropy of their own)",
		rule:   "one run = one seeded set of random sources, clocks and process starts; distinct = different ids; every run is judged",
		assume: []string{"the auto-seeded math/rand is modelled as a stream that differs between processes; ids repeat by chance with probability below 1e-9 per run"}},
	"C21": {engine: "hostile", quick: 100000, thorough: 3000000, real: "Dealer, Broker, client Session, Acceptor, Joiner, JSON, CBOR and MsgPack serializers, payload decoders, rawsocket readers", stub: "the attackers (message generator, encoders that use every form the formats allow, byte mutations), the router's dispatch loop",
		rule:   "one run = one seeded sequence of hostile inputs to a router with honest sessions, to a client, to acceptors and joiners; distinct = different history; every run is judged",
		assume: []string{"challenges that ask for 100000 key derivation iterations or more are left out: how long a client works on those is not decided"}},
	"C22": {engine: "raw", quick: 150000, thorough: 6000000, real: "rawsocket handshake and message headers; JSON, CBOR and MsgPack encoders for the messages in the frames", stub: "the TCP connection, the read loop that collects bytes, the peer of another implementation (made from the specification)",
		rule: "one run = one seeded sequence of connections, frames, segmentations, cuts and damaged handshakes; distinct = different history; non-trivial = at least one handshake or frame was judged"},
	"C23": concProp("routerconc", "Dealer with all message types it handles"),
	"C24": concProp("routerconc", "Broker with all message types it handles"),
	"C25": concProp("sessconc", "client Session with JSON, CBOR and MsgPack"),
	"C28": sharedProp("shared", "serializers, messages, id and challenge generators, authenticators, Acceptor and Joiner, payload codecs, rawsocket functions"),
	"C29": {engine: "wire", quick: 80000, thorough: 6000000, real: "all message types, JSON, CBOR and MsgPack serializers, rawsocket headers",
		stub: "the peer of another implementation: its own encoders and decoders, made from the formats' and WAMP's specifications, and the connection",
		rule: "one run = one seeded conversation of messages of all kinds in both directions over a stream that arrives in pieces and may be cut; distinct = different messages or encodings; non-trivial = at least one message was compared"},
	"C30": {engine: "endure", quick: 6000, thorough: 200000, real: "Dealer, Broker, client Session, Acceptor, Joiner, all authenticators, serializers, payload codecs, rawsocket functions, id and challenge generators",
		stub:   "the peers, the user database, clock, entropy, math/rand and map order",
		rule:   "one run = one seeded cycle of sessions, requests, handshakes and messages with crashes and cuts, repeated 375 times or more against the same objects; distinct = different cycle; every run is judged",
		assume: []string{"what is reachable is what the Go collector keeps; less than 12 bytes per cycle are not seen"}},
	"C27": authProp(40000, "at least one time stamp was compared with the simulated clock"),
}

const authReal = "Acceptor, Joiner, all client authenticators, challenge generation and verification, HELLO/CHALLENGE/AUTHENTICATE/WELCOME/ABORT with JSON, CBOR and MsgPack"
const authStub = "links (ordered, latency, stalls, cuts), the user database behind ServerAuthenticator, the attacker, clock, zone, entropy source, math/rand and map order"

func authProp(quick int, rule string) propDef {
	return propDef{engine: "auth", quick: quick, thorough: quick * 60, real: authReal, stub: authStub,
		rule:   "one run = one seeded plan of handshakes, attacks and faults; distinct = different history of messages and answers; non-trivial = " + rule,
		assume: []string{"HMAC-SHA256, PBKDF2 and Ed25519 as implemented by the Go libraries are unforgeable; the judge verifies with its own PBKDF2 and the standard library's primitives"}}
}

func clientProp(rule string) propDef {
	return propDef{engine: "client", quick: 60000, thorough: 6000000,
		real: "client Session, all message types, JSON, CBOR and MsgPack serializers",
		stub: "the router (a peer that answers anything at any time), encoding and decoding failures, torn messages",
		rule: "one run = one seeded sequence of sends and received messages, with faults, against a fresh session; distinct = different history; non-trivial = " + rule}
}

func concProp(engine, real string) propDef {
	return propDef{engine: engine, quick: 60000, thorough: 6000000, race: true, real: real + ", built with the race detector",
		stub:   "the task scheduler (a seeded preemption at any statement or lock operation), locks' blocking, clock, math/rand and map order",
		rule:   "one run = one seeded set of operations of 2 or 3 tasks and one seeded schedule of them; distinct = different schedule or different results; every run is judged",
		assume: []string{"data races are seen by the race detector when the schedule lets the two accesses happen without an ordering between them"}}
}

// runs of the shared engine cost more: each does everything twice, alone and together.
func sharedProp(engine, real string) propDef {
	d := concProp(engine, real)
	d.quick, d.thorough = 30000, 3000000
	return d
}

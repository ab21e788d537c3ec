package main

import (
	"bytes"
	"container/heap"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	rt "github.com/xconnio/wampproto-go/zzsimrt"
)

// The handshake engine: real Acceptors and Joiners over simulated links, a
// user database, honest clients with right and wrong credentials, and an
// attacker that connects under any name, keeps everything it saw, replays,
// forges and mutates. Clock and entropy are simulated and can fail.

type authUser struct {
	id, role, ticket, secret, salt string
	iters, keylen                  int
	priv                           ed25519.PrivateKey
	seedHex, pub                   string
	key                            []byte
}

var errNoUser = errors.New("no such user or wrong credentials")
var errEntropy = errors.New("simulated entropy failure")

type authVerdict struct {
	method auth.Method
	realm  string
	authid string
	extra  string
	secret string // ticket or public key
	user   *authUser
	resp   auth.Response
	ok     bool
}

type captured struct {
	user  int
	met   auth.Method
	sig   string
	extra map[string]any
	conn  int
}

type authConn struct {
	slot   int
	gen    int
	up     bool
	ser    serializers.Serializer
	serID  int
	faultS *faultySerializer // the router's and the client's: they fail when told to
	faultC *faultySerializer
	acc    *wampproto.Acceptor
	join   *wampproto.Joiner
	wire   bool
	upAt   int64
	downAt int64

	// what the server side model knows
	st        int // 0 none, 1 challenged, 2 welcomed, 3 aborted
	hello     *messages.Hello
	method    auth.Method
	challenge string
	chSession uint64
	verdict   *authVerdict
	welcome   *messages.Welcome
	details   string
	spent     bool

	// what the client side model knows
	jst      int // 0 none, 1 hello sent, 2 authenticate sent, 3 joined, 4 aborted
	jdetails string
	jwelcome *messages.Welcome

	honest  bool
	right   bool // right credentials
	touched bool // faults hit this connection
	// noEntropy: the entropy source failed while the router handled a message of this connection
	noEntropy bool
	user      int
	met       auth.Method
	realm     string
	extra     map[string]any
	lastUp    []byte
	lastDn    []byte
	upMsg     messages.Message
	dnMsg     messages.Message
}

type authSim struct {
	*ctx
	p   *Plan
	q   eventQueue
	seq uint64

	users    []*authUser
	methods  []auth.Method
	conns    []*authConn
	cur      []authVerdict // verdicts of the database during the current call
	log      []captured
	chLog    []string // challenges seen
	chSeen   map[string]int
	ids      map[uint64]bool
	entropy  rt.PRNG
	failNext int
	drawn    int
	owed     int   // failures of the entropy source that nothing was refused for yet
	starved  bool  // the last read during the current message failed
	offset   int64 // clock offset, ns
	zone     *time.Location
	clocked  time.Time
	closed   string // realm the database refuses
	canon    bool   // the database maps authids to a canonical form
}

var authMethods = []auth.Method{auth.Anonymous, auth.Ticket, auth.WAMPCRA, auth.CryptoSign}
var authRealms = []string{"realm1", "r.two", "réalm", "closed"}

func (a *authSim) at(t int64, f func()) {
	if t < a.now {
		t = a.now
	}
	a.seq++
	heap.Push(&a.q, event{t, a.seq, f})
}

func letters(r *rt.PRNG, n int) string {
	const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	b := make([]byte, n)
	for i := range b {
		b[i] = al[r.N(len(al))]
	}
	return string(b)
}

func roleFor(u *authUser, realm string) string { return u.role + "@" + realm }

func newAuthSim(p *Plan, trace bool) *authSim {
	a := &authSim{ctx: newCtx(p.Prop, trace), p: p, chSeen: map[string]int{}, ids: map[uint64]bool{}, zone: time.UTC}
	rt.SeedRand(rt.Mix(p.Seed, 1))
	rt.SeedMaps(rt.Mix(p.Seed, 2))
	rt.SingleTask(true)
	a.entropy = rt.NewPRNG(rt.Mix(p.Seed, 3))
	rt.Entropy = func(b []byte) (int, error) {
		a.drawn += len(b)
		if a.failNext > 0 {
			a.failNext--
			a.owed++
			a.count("fault:entropy-failure")
			n := 0
			if len(b) > 1 {
				n = a.entropy.N(len(b)) // some bytes, then the error
			}
			for i := 0; i < n; i++ {
				b[i] = byte(a.entropy.U64())
			}
			a.starved = n < 16
			return n, errEntropy
		}
		if len(b) >= 16 {
			a.starved = false // it was asked again
		}
		for i := range b {
			b[i] = byte(a.entropy.U64())
		}
		return len(b), nil
	}
	settleEntropy(p.Seed)
	r := rt.NewPRNG(rt.Mix(p.Seed, 0xdb))
	names := []string{"alice", "bob", "Alice", "al", "user@é.org", "x"}
	for i, n := range names {
		u := &authUser{id: n, role: "role" + letters(&r, 4), ticket: letters(&r, 8+r.N(30)), secret: letters(&r, 10+r.N(60))}
		if (p.cfg("salted")>>i)&1 == 1 {
			u.salt = letters(&r, 1+r.N(24))
			u.iters = []int{1, 2, 7, 100, 0, 1000, 300, 130}[r.N(8)]
			u.keylen = []int{32, 16, 1, 64, 0, 33, 130, 300}[r.N(8)]
			if r.N(500) == 0 {
				u.iters = 70000 // more than 16 bits
			}
		}
		seed := make([]byte, 32)
		for k := range seed {
			seed[k] = byte(r.U64())
		}
		u.seedHex = hex.EncodeToString(seed)
		u.priv = ed25519.NewKeyFromSeed(seed)
		u.pub = hex.EncodeToString(u.priv.Public().(ed25519.PublicKey))
		a.users = append(a.users, u)
	}
	for i, m := range authMethods {
		if (p.cfg("methods")>>i)&1 == 1 {
			a.methods = append(a.methods, m)
		}
	}
	if r.N(2) == 0 {
		for i, j := 0, len(a.methods)-1; i < j; i, j = i+1, j-1 {
			a.methods[i], a.methods[j] = a.methods[j], a.methods[i]
		}
	}
	a.canon = p.cfg("canon") == 1
	if p.cfg("defaults") == 1 {
		a.methods = []auth.Method{auth.Anonymous}
	}
	for i := 0; i < p.cfg("conns"); i++ {
		a.conns = append(a.conns, &authConn{slot: i})
	}
	a.setClock()
	return a
}

func (a *authSim) setClock() {
	ns := int64(1_700_000_000_000_000_000) + a.now*1000 + a.offset
	a.clocked = time.Unix(ns/1e9, ns%1e9).In(a.zone)
	rt.SetClock(ns, a.zone)
}

func (a *authSim) userOf(id string) *authUser {
	for _, u := range a.users {
		if u.id == id {
			return u
		}
	}
	return nil
}

// authDB is the embedding application's ServerAuthenticator.
type authDB struct{ a *authSim }

func (d authDB) Methods() []auth.Method { return d.a.methods }

func (d authDB) Authenticate(req auth.Request) (auth.Response, error) {
	a := d.a
	v := authVerdict{method: req.AuthMethod(), realm: req.Realm(), authid: req.AuthID(), extra: norm(req.AuthExtra())}
	u := a.userOf(req.AuthID())
	respID := req.AuthID()
	if a.canon && u != nil {
		respID = "canonical:" + u.id
	}
	switch q := req.(type) {
	case *auth.TicketRequest:
		v.secret = q.Ticket()
		if u != nil && q.AuthMethod() == auth.Ticket && q.Ticket() == u.ticket {
			v.ok, v.user = true, u
			v.resp, _ = auth.NewResponse(respID, roleFor(u, req.Realm()), 0)
		}
	case *auth.RequestCryptoSign:
		v.secret = q.PublicKey()
		if u != nil && q.AuthMethod() == auth.CryptoSign && strings.EqualFold(q.PublicKey(), u.pub) {
			v.ok, v.user = true, u
			v.resp, _ = auth.NewResponse(respID, roleFor(u, req.Realm()), 0)
		}
	default:
		switch req.AuthMethod() {
		case auth.Anonymous:
			v.ok = true
			v.resp, _ = auth.NewResponse("anon-"+fmt.Sprint(len(a.ids)), "guest@"+req.Realm(), 0)
		case auth.WAMPCRA:
			if u != nil {
				v.ok, v.user = true, u
				if u.salt == "" {
					v.resp = auth.NewCRAResponse(respID, roleFor(u, req.Realm()), u.secret, 0)
				} else {
					v.resp = auth.NewCRAResponseSalted(respID, roleFor(u, req.Realm()), u.secret, u.salt, u.iters, u.keylen, 0)
				}
			}
		}
	}
	if req.Realm() == "closed" {
		v.ok, v.resp, v.user = false, nil, nil
	}
	a.cur = append(a.cur, v)
	if !v.ok {
		return nil, errNoUser
	}
	return v.resp, nil
}

// pbkdf is PBKDF2-HMAC-SHA256, written independently of the library's.
func pbkdf(secret, salt []byte, iters, n int) []byte {
	var out []byte
	for block := 1; len(out) < n; block++ {
		h := hmac.New(sha256.New, secret)
		h.Write(salt)
		h.Write([]byte{byte(block >> 24), byte(block >> 16), byte(block >> 8), byte(block)})
		u := h.Sum(nil)
		t := append([]byte(nil), u...)
		for i := 1; i < iters; i++ {
			h.Reset()
			h.Write(u)
			u = h.Sum(nil)
			for k := range t {
				t[k] ^= u[k]
			}
		}
		out = append(out, t...)
	}
	return out[:n]
}

func (u *authUser) craKey() []byte {
	if u.key == nil {
		u.key = u.deriveKey()
	}
	return u.key
}

func (u *authUser) deriveKey() []byte {
	if u.salt == "" {
		return []byte(u.secret)
	}
	iters, n := u.iters, u.keylen
	if iters == 0 {
		iters = 1000
	}
	if n == 0 {
		n = 32
	}
	return []byte(base64.StdEncoding.EncodeToString(pbkdf([]byte(u.secret), []byte(u.salt), iters, n)))
}

func hmacOf(key []byte, msg string) []byte {
	h := hmac.New(sha256.New, key)
	h.Write([]byte(msg))
	return h.Sum(nil)
}

// proof is the one signature that answers a challenge for a user.
func (a *authSim) proof(m auth.Method, u *authUser, challenge string) string {
	switch m {
	case auth.Ticket:
		return u.ticket
	case auth.WAMPCRA:
		return base64.StdEncoding.EncodeToString(hmacOf(u.craKey(), challenge))
	case auth.CryptoSign:
		raw, err := hex.DecodeString(challenge)
		if err != nil {
			return ""
		}
		return hex.EncodeToString(ed25519.Sign(u.priv, raw)) + challenge
	}
	return ""
}

// proves decides independently whether sig proves the claim that c's challenge asked for.
func (a *authSim) proves(c *authConn, sig string) (ok, canonical bool) {
	switch c.method {
	case auth.Ticket:
		u := a.userOf(c.hello.AuthID())
		ok = u != nil && sig == u.ticket && c.hello.Realm() != "closed"
		return ok, ok
	case auth.WAMPCRA:
		if c.verdict == nil || c.verdict.user == nil {
			return false, false
		}
		want := hmacOf(c.verdict.user.craKey(), c.challenge)
		if sig == base64.StdEncoding.EncodeToString(want) {
			return true, true
		}
		got, err := base64.StdEncoding.DecodeString(sig)
		if err != nil {
			got, err = base64.RawStdEncoding.DecodeString(strings.TrimRight(sig, "="))
		}
		return err == nil && bytes.Equal(got, want), false
	case auth.CryptoSign:
		if c.verdict == nil || c.verdict.user == nil {
			return false, false
		}
		u := c.verdict.user
		raw, err := hex.DecodeString(sig)
		ch, err2 := hex.DecodeString(c.challenge)
		if err != nil || err2 != nil || len(raw) < 64 {
			return false, false
		}
		if len(raw) > 64 && !bytes.Equal(raw[64:], ch) {
			return false, false
		}
		ok = ed25519.Verify(u.priv.Public().(ed25519.PublicKey), ch, raw[:64])
		return ok, ok && sig == strings.ToLower(sig) && len(raw) == 64+len(ch)
	}
	return false, false
}

// ---------------------------------------------------------------- run

func runAuth(p *Plan, trace bool) *Result {
	a := newAuthSim(p, trace)
	defer func() { rt.Entropy = nil; rt.SingleTask(false) }()
	for i := range p.Steps {
		s := p.Steps[i]
		a.at(s.At, func() { a.step(s) })
	}
	events := 0
	for len(a.q) > 0 && !a.failed() {
		e := heap.Pop(&a.q).(event)
		a.now = e.at
		events++
		if events > 50000 {
			a.violate(a.prop, "no-quiescence", "the simulation does not come to rest")
			break
		}
		a.setClock()
		e.f()
	}
	if !a.failed() {
		for _, c := range a.conns {
			a.finishConn(c)
		}
	}
	a.res.Stats["events"] += int64(events)
	return a.done()
}

func (a *authSim) conn(i int) *authConn { return a.conns[((i%len(a.conns))+len(a.conns))%len(a.conns)] }
func (a *authSim) user(i int) *authUser { return a.users[((i%len(a.users))+len(a.users))%len(a.users)] }

func (a *authSim) step(s Step) {
	c := a.conn(s.C)
	switch s.Op {
	case "clock":
		a.offset += int64(s.A) * int64(time.Second)
		a.count("fault:clock-jump")
		a.event(fmt.Sprintf("clock jumps by %d s", s.A))
		return
	case "zone":
		a.zone = time.FixedZone(fmt.Sprintf("z%d", s.A), s.A*60+s.B)
		a.count("fault:zone-change")
		a.event(fmt.Sprintf("zone is now %d minutes and %d seconds", s.A, s.B))
		return
	case "entropy":
		a.failNext = s.A
		a.event(fmt.Sprintf("the next %d entropy reads fail", s.A))
		return
	case "open":
		a.open(c, s)
		return
	case "raw":
		a.reset(c, s)
		a.event(fmt.Sprintf("conn %d opened by the attacker", c.slot))
		return
	}
	if !c.up {
		return
	}
	switch s.Op {
	case "cut":
		a.count("fault:cut")
		a.event(fmt.Sprintf("conn %d cut", c.slot))
		a.finishConn(c)
		c.up = false
		c.gen++
	case "hello":
		a.attackHello(c, s)
	case "auth":
		a.attackAuth(c, s)
	case "msg":
		c.touched = true
		a.count("fault:stray-to-router")
		a.toAcceptor(c, a.stray(s, c, strayMessage(s, c.hello), 9), s)
	case "jmsg":
		if c.join == nil {
			return
		}
		c.touched = true
		a.count("fault:stray-to-client")
		a.toJoiner(c, a.stray(s, c, strayForClient(s, a), 8), nil)
	case "again":
		if c.join != nil && c.jst > 0 {
			a.toJoinerAgain(c)
		}
	case "dup":
		c.touched = true
		a.count("fault:duplicate")
		if s.A == 0 && c.upMsg != nil {
			a.toAcceptor(c, c.upMsg, s)
		} else if s.A == 1 && c.dnMsg != nil && c.join != nil {
			a.toJoiner(c, c.dnMsg, nil)
		}
	case "encfail": // the next message that this side encodes cannot be
		c.touched = true
		if s.A == 0 {
			c.faultS.failOut = true
		} else {
			c.faultC.failOut = true
		}
	case "slow":
		c.upAt += int64(s.A)
		c.downAt += int64(s.B)
		a.count("fault:stall")
	default:
		panic("unknown step " + s.Op)
	}
}

func (a *authSim) reset(c *authConn, s Step) {
	if c.up {
		a.finishConn(c)
	}
	gen := c.gen + 1
	*c = authConn{slot: c.slot, gen: gen, up: true, upAt: a.now, downAt: a.now}
	c.serID = s.D % 3
	c.ser = serializerOf(c.serID)
	c.faultS, c.faultC = &faultySerializer{Serializer: c.ser}, &faultySerializer{Serializer: c.ser}
	c.wire = s.F&4 == 0
	var db auth.ServerAuthenticator = authDB{a}
	var ser serializers.Serializer = c.faultS
	if a.p.cfg("defaults") == 1 { // a router that configures nothing: anonymous clients only
		db = nil
		if c.serID == serJSON {
			ser = nil
		}
	}
	c.acc = wampproto.NewAcceptor(ser, db)
}

// open starts an honest client.
func (a *authSim) open(c *authConn, s Step) {
	a.reset(c, s)
	u := a.user(s.A)
	c.honest, c.user, c.met, c.realm = true, s.A%len(a.users), authMethods[s.B%4], s.U
	c.right = s.F&1 == 0
	if s.F&2 != 0 {
		c.extra = map[string]any{"k": "v", "n": 7, "list": []any{"a", 1}}
	}
	var ca auth.ClientAuthenticator
	var err error
	switch c.met {
	case auth.Anonymous:
		c.right = true
		ca = auth.NewAnonymousAuthenticator(u.id, c.extra)
	case auth.Ticket:
		t := u.ticket
		if !c.right {
			t = wrong(t, s.I)
		}
		ca = auth.NewTicketAuthenticator(u.id, t, c.extra)
	case auth.WAMPCRA:
		t := u.secret
		if !c.right {
			t = wrong(t, s.I)
			// a derived key of one byte is the same for one wrong secret in 256.
			other := *u
			other.secret, other.key = t, nil
			c.right = bytes.Equal(other.craKey(), u.craKey())
		}
		ca = auth.NewWAMPCRAAuthenticator(u.id, t, c.extra)
	case auth.CryptoSign:
		k := u.seedHex
		if !c.right {
			k = a.user(s.A + 1).seedHex
		}
		a.badKeys(k, s.I)
		ca, err = auth.NewCryptoSignAuthenticator(u.id, k, c.extra)
		if err != nil {
			a.violate("C14", "client-setup", "NewCryptoSignAuthenticator refuses a valid key: %v", err)
			return
		}
	}
	a.event(fmt.Sprintf("conn %d: %s joins %s with %s, right=%v, serializer %d", c.slot, u.id, c.realm, c.met, c.right, c.serID))
	authid := u.id
	if a.p.cfg("defaults") == 1 && c.met == auth.Anonymous && c.extra == nil && s.I%2 == 0 {
		ca, authid = nil, "" // a client that configures nothing either
		if c.serID == serJSON {
			c.join = wampproto.NewJoiner(c.realm, nil, nil)
		}
	}
	if c.join == nil {
		c.join = wampproto.NewJoiner(c.realm, c.faultC, ca)
	}
	if _, err := c.join.SessionDetails(); err == nil {
		a.violate("C13", "details-early", "a client that has not joined has session details")
	}
	if r := rt.NewPRNG(rt.Mix(a.p.Seed^0x4e110, uint64(s.I))); r.N(8) == 0 {
		a.beforeHello(c, &r)
		if a.failed() || !c.up || c.jst != 0 {
			return
		}
	}
	var raw []byte
	crash := protect(func() { raw, err = c.join.SendHello() })
	if crash != "" || err != nil {
		a.violate("C14", "hello-failed", "SendHello fails: %v %s", err, crash)
		return
	}
	c.jst = 1
	msg := a.decode(c, raw)
	if msg == nil || msg.Type() != messages.MessageTypeHello {
		a.violate("C14", "hello-wrong", "SendHello does not produce a HELLO")
		return
	}
	h := msg.(*messages.Hello)
	if h.Realm() != c.realm || (c.met != auth.Anonymous && h.AuthID() != authid) || len(h.AuthMethods()) != 1 || h.AuthMethods()[0] != string(c.met) {
		a.violate("C14", "hello-wrong", "HELLO for %s in %s with %s says authid %q realm %q methods %v", u.id, c.realm, c.met, h.AuthID(), h.Realm(), h.AuthMethods())
		return
	}
	a.check("C14")
	if want := a.wantExtra(c); norm(want) != norm(map[string]any{}) && norm(h.AuthExtra()) != norm(want) {
		a.violate("C14", "authextra", "HELLO for %s with %s carries authextra %s, the client's is %s", u.id, c.met, norm(h.AuthExtra()), norm(want))
		return
	}
	for _, role := range []string{"caller", "callee", "publisher", "subscriber"} {
		if _, ok := h.Roles()[role].(map[string]any); !ok {
			a.violate("C14", "roles", "HELLO announces the roles %s, and not %s", norm(h.Roles()), role)
			return
		}
	}
	for _, f := range [][2]string{{"caller", "progressive_call_invocations"}, {"callee", "progressive_call_invocations"}, {"callee", "progressive_call_results"}, {"publisher", "publisher_exclusion"}} {
		if !announced(h.Roles(), f) {
			a.violate("C14", "roles", "HELLO announces the roles %s, and not that a %s can do %s", norm(h.Roles()), f[0], f[1])
			return
		}
	}
	a.secretLeak(c, raw, "HELLO")
	a.sendUp(c, raw, msg, s)
}

// wantExtra is the authextra of an honest client as the router is to see it:
// what it was configured with and, for cryptosign, its public key.
func (a *authSim) wantExtra(c *authConn) map[string]any {
	want := map[string]any{}
	for k, v := range c.extra {
		want[k] = v
	}
	if c.met == auth.CryptoSign {
		k := a.users[c.user].seedHex
		if !c.right {
			k = a.user(c.user + 1).seedHex
		}
		want["pubkey"] = publicOf(k)
	}
	return want
}

// beforeHello has things happen to a client before its HELLO went out: none of
// them is part of the handshake, and unless it was told off it can still begin.
func (a *authSim) beforeHello(c *authConn, r *rt.PRNG) {
	for k := r.N(3); k > 0 && c.up; k-- {
		a.count("fault:stray-before-hello")
		a.toJoiner(c, strayForClient(Step{A: r.N(8), B: r.N(9)}, a), nil)
	}
	if !c.up || a.failed() {
		return
	}
	if r.N(2) == 0 {
		c.faultC.failOut, c.faultC.failed = true, false
		var raw []byte
		var err error
		crash := protect(func() { raw, err = c.join.SendHello() })
		used := c.faultC.failed
		c.faultC.failOut, c.faultC.failed = false, false
		a.event(fmt.Sprintf("conn %d: the HELLO cannot be encoded, error=%v", c.slot, err != nil))
		if crash != "" || used && (err == nil || len(raw) > 0) {
			a.violate("C13", "encode-failure", "the client cannot encode its HELLO and does not say so %s", crash)
			return
		}
		if !used && err == nil { // its serializer was not ours: this was the HELLO
			a.toJoinerAgain(c)
			c.up = false
			return
		}
		a.count("fault:encode-failure")
		if c.jst == 0 && r.N(2) == 0 && used {
			a.toJoiner(c, strayForClient(Step{A: r.N(4), B: r.N(9)}, a), nil)
		}
	}
	if c.jst == 4 { // it was refused before it asked: that was it
		a.toJoinerAgain(c)
		c.up = false
	}
}

// toJoinerAgain has a client that is past its HELLO asked for another one.
func (a *authSim) toJoinerAgain(c *authConn) {
	var raw []byte
	var err error
	crash := protect(func() { raw, err = c.join.SendHello() })
	a.check("C13")
	a.count("fault:second-hello")
	a.event(fmt.Sprintf("conn %d: the client in state %d is asked for another HELLO, error=%v", c.slot, c.jst, err != nil))
	if crash != "" || err == nil || raw != nil {
		a.violate("C13", "second-hello-sent", "the client in state %d makes another HELLO: %x %v %s", c.jst, raw, err, crash)
	}
}

// badKeys offers a key file that is damaged: it is refused, and nothing is made of it.
func (a *authSim) badKeys(k string, i int) {
	r := rt.NewPRNG(rt.Mix(a.p.Seed^0xbad, uint64(i)))
	if r.N(4) > 0 {
		return
	}
	extra := map[string]any(nil)
	bad := []string{"", k[:r.N(len(k))], k + k, k + k[:2*r.N(32)+2], k[:len(k)-1] + "g", k[2:] + "zz", " " + k[1:], k + "0"}[r.N(8)]
	if r.N(4) == 0 { // the public key of another
		other := a.user(i + 1).seedHex
		if other == k {
			return
		}
		bad, extra = k, map[string]any{"pubkey": publicOf(other)}
	}
	var ca auth.ClientAuthenticator
	var err error
	a.count("fault:damaged-key")
	crash := protect(func() { ca, err = auth.NewCryptoSignAuthenticator("joe", bad, extra) })
	if crash != "" || err == nil || ca != nil {
		a.violate("C14", "damaged-key", "the private key %q with %s is not refused (%v) %s", bad, norm(extra), err, crash)
	}
}

// publicOf is the public key of a private one, both in hex.
func publicOf(seedHex string) string {
	raw, err := hex.DecodeString(seedHex)
	if err != nil || len(raw) != ed25519.SeedSize {
		return "none"
	}
	return hex.EncodeToString(ed25519.NewKeyFromSeed(raw).Public().(ed25519.PublicKey))
}

func wrong(t string, i int) string {
	switch i % 5 {
	case 0:
		return t + "x"
	case 1:
		return t[:len(t)-1]
	case 2:
		return strings.ToLower(t) + "Q"
	case 3:
		return ""
	}
	b := []byte(t)
	b[i%len(b)] ^= 1
	return string(b)
}

func (a *authSim) lat(c *authConn) int64 {
	max := a.p.cfg("lat")
	if max == 0 {
		return 1
	}
	r := rt.NewPRNG(rt.Mix(a.p.Seed^0x1a7, a.seq))
	return int64(1 + r.N(max))
}

func (a *authSim) sendUp(c *authConn, raw []byte, msg messages.Message, s Step) {
	c.lastUp, c.upMsg = raw, msg
	t := a.now + a.lat(c)
	if t <= c.upAt {
		t = c.upAt + 1
	}
	c.upAt = t
	gen := c.gen
	a.at(t, func() {
		if c.gen == gen && c.up {
			a.toAcceptor(c, msg, s)
		}
	})
}

func (a *authSim) sendDown(c *authConn, raw []byte, msg messages.Message) {
	c.lastDn, c.dnMsg = raw, msg
	t := a.now + a.lat(c)
	if t <= c.downAt {
		t = c.downAt + 1
	}
	c.downAt = t
	gen := c.gen
	a.at(t, func() {
		if c.gen == gen && c.up {
			a.toJoiner(c, msg, raw)
		}
	})
}

func (a *authSim) decode(c *authConn, raw []byte) messages.Message {
	var m messages.Message
	var err error
	if crash := protect(func() { m, err = c.ser.Deserialize(raw) }); crash != "" || err != nil {
		return nil
	}
	return m
}

// secretLeak: shared secrets and private keys never cross the wire.
func (a *authSim) secretLeak(c *authConn, raw []byte, what string) {
	a.check("C12")
	for _, u := range a.users {
		if len(u.secret) > 8 && bytes.Contains(raw, []byte(u.secret)) {
			a.violate("C12", "secret-on-the-wire", "%s on conn %d contains the WAMP-CRA secret of %s", what, c.slot, u.id)
		}
		if u.salt != "" && u.keylen >= 16 && bytes.Contains(raw, u.craKey()) {
			a.violate("C12", "secret-on-the-wire", "%s on conn %d contains the derived WAMP-CRA key of %s", what, c.slot, u.id)
		}
		if bytes.Contains(raw, []byte(u.seedHex)) {
			a.violate("C12", "secret-on-the-wire", "%s on conn %d contains the private key of %s", what, c.slot, u.id)
		}
	}
}

// ---------------------------------------------------------------- attacker

func (a *authSim) attackHello(c *authConn, s Step) {
	c.touched = true
	u := a.user(s.A)
	extra := map[string]any{}
	switch s.D % 8 {
	case 0, 1:
		extra["pubkey"] = u.pub
	case 2:
		extra["pubkey"] = a.user(s.A + 1).pub
	case 3:
		extra["pubkey"] = ""
	case 4:
		extra["pubkey"] = 17
	case 5:
		extra["pubkey"] = u.pub[:32]
	case 6:
		extra["pubkey"] = strings.ToUpper(u.pub)
	}
	var methods []string
	if s.S != "" {
		methods = strings.Split(s.S, ",")
	}
	id := u.id
	if s.F&8 != 0 {
		id = "nobody"
	}
	a.count("fault:attacker-hello")
	a.toAcceptor(c, messages.NewHello(s.U, id, extra, map[string]any{"caller": map[string]any{}}, methods), s)
}

func flipBit(b []byte, i int) []byte {
	out := append([]byte(nil), b...)
	if len(out) > 0 {
		i = ((i % (len(out) * 8)) + len(out)*8) % (len(out) * 8)
		out[i/8] ^= 1 << (i % 8)
	}
	return out
}

// attackAuth sends an AUTHENTICATE that the attacker made up.
func (a *authSim) attackAuth(c *authConn, s Step) {
	c.touched = true
	claimed := a.user(0)
	if c.hello != nil {
		if u := a.userOf(c.hello.AuthID()); u != nil {
			claimed = u
		}
	}
	m := c.method
	if m == "" {
		m = authMethods[1+s.D%3]
	}
	good := a.proof(m, claimed, c.challenge)
	sig := ""
	name := ""
	raw := func(v string) []byte {
		if m == auth.CryptoSign {
			b, _ := hex.DecodeString(v)
			return b
		}
		if m == auth.WAMPCRA {
			b, _ := base64.StdEncoding.DecodeString(v)
			return b
		}
		return []byte(v)
	}
	enc := func(b []byte) string {
		if m == auth.CryptoSign {
			return hex.EncodeToString(b)
		}
		if m == auth.WAMPCRA {
			return base64.StdEncoding.EncodeToString(b)
		}
		return string(b)
	}
	cut := func(b []byte, n int) []byte {
		if len(b) == 0 {
			return b
		}
		n = ((n % len(b)) + len(b)) % len(b)
		return b[:n]
	}
	switch s.A % 20 {
	case 0, 1, 2:
		name = "replay"
		if len(a.log) == 0 {
			return
		}
		// prefer what the same user sent before
		var pool []captured
		for _, k := range a.log {
			if a.user(k.user) == claimed && k.met == m {
				pool = append(pool, k)
			}
		}
		if len(pool) == 0 || s.A%20 == 2 {
			pool = a.log
		}
		sig = pool[((s.B%len(pool))+len(pool))%len(pool)].sig
	case 3:
		name = "empty"
	case 4:
		name, sig = "other-user", a.proof(m, a.user(s.B), c.challenge)
	case 5, 6:
		name, sig = "bitflip", enc(flipBit(raw(good), s.B))
	case 7:
		name, sig = "truncated", enc(cut(raw(good), s.B))
	case 8:
		name, sig = "extended", enc(append(raw(good), byte(s.B)))
	case 9:
		name, sig = "valid", good
	case 10:
		name = "old-signature-new-challenge"
		if m == auth.CryptoSign {
			for _, k := range a.log {
				if a.user(k.user) == claimed && k.met == m && len(k.sig) >= 128 {
					sig = k.sig[:128] + c.challenge
				}
			}
		}
	case 11:
		name = "wrong-key"
		switch {
		case m == auth.WAMPCRA && s.B%3 == 0:
			sig = enc(hmacOf([]byte(claimed.secret+"x"), c.challenge))
		case m == auth.WAMPCRA && s.B%3 == 1:
			sig = enc(hmacOf(nil, c.challenge))
		case m == auth.WAMPCRA:
			k := claimed.craKey()
			sig = enc(hmacOf(k[:len(k)-1], c.challenge))
		default:
			sig = a.proof(m, a.user(s.B+1), c.challenge)
		}
	case 12:
		name, sig = "challenge-as-signature", c.challenge
	case 13:
		name = "other-challenge"
		ch := c.challenge
		if len(a.chLog) > 0 {
			ch = a.chLog[((s.B%len(a.chLog))+len(a.chLog))%len(a.chLog)]
		}
		sig = a.proof(m, claimed, ch)
	case 14:
		name, sig = "upper", strings.ToUpper(good)
	case 15:
		name, sig = "spaced", good+"\n"
		switch s.B % 9 {
		case 1:
			sig = good + " "
		case 2:
			sig = " " + good
		case 3:
			sig = good + "\x00"
		case 4:
			sig = "\t" + good
		case 5: // the alphabet of URLs
			sig = strings.NewReplacer("+", "-", "/", "_").Replace(good)
		case 6:
			sig = strings.TrimRight(good, "=")
		case 7:
			sig = good + "="
		case 8:
			if m == auth.CryptoSign {
				sig = "0x" + good
			} else {
				sig = good + good
			}
		}
	case 16:
		// signature of one message, another challenge in the tail
		name = "spliced"
		if m == auth.CryptoSign && len(good) == 192 {
			other := c.challenge
			if len(a.chLog) > 0 {
				other = a.chLog[((s.B%len(a.chLog))+len(a.chLog))%len(a.chLog)]
			}
			sig = good[:128] + other
		} else {
			sig = string(cut([]byte(good), s.B))
		}
	case 18, 19:
		// the right key, and a challenge that differs from the one sent in one place
		name = "near-challenge"
		ch := []byte(c.challenge)
		if len(ch) == 0 {
			return
		}
		i := (s.B%len(ch) + len(ch)) % len(ch)
		if ch[i] == '7' {
			ch[i] = '3'
		} else {
			ch[i] = '7'
		}
		sig = a.proof(m, claimed, string(ch))
	case 17:
		name = "prefix-of-text"
		sig = string(cut([]byte(good), s.B))
	}
	a.count("fault:attack-" + name)
	var extra map[string]any
	if s.F&16 != 0 {
		extra = map[string]any{"authid": a.user(s.B + 1).id, "authrole": "admin", "realm": "r.two"}
	}
	a.toAcceptor(c, messages.NewAuthenticate(sig, extra), s)
}

// stray is the message of a step: one of the few likely ones, or any message of all kinds.
func (a *authSim) stray(s Step, c *authConn, likely messages.Message, n int) messages.Message {
	if s.A < n {
		return likely
	}
	r := rt.NewPRNG(rt.Mix(a.p.Seed^0x57a7, uint64(s.I)))
	m, _ := wireMessage((s.A-n)%24, &r, c.serID)
	return m
}

func strayMessage(s Step, h *messages.Hello) messages.Message {
	switch s.A % 9 {
	case 0:
		return messages.NewCall(1, nil, "a.b", nil, nil)
	case 1:
		return messages.NewWelcome(5, map[string]any{"authid": "alice", "authrole": "admin", "realm": "realm1"})
	case 2:
		return messages.NewChallenge("ticket", map[string]any{})
	case 3:
		return messages.NewGoodBye("wamp.close.normal", map[string]any{})
	case 4:
		return messages.NewAbort(map[string]any{}, "wamp.error.x", nil, nil)
	case 5:
		return messages.NewSubscribe(1, nil, "t")
	case 6:
		return messages.NewYield(1, nil, nil, nil)
	case 7:
		if h != nil {
			return h
		}
		return messages.NewHello("realm1", "alice", nil, nil, []string{"anonymous"})
	}
	return messages.NewAuthenticate("", nil)
}

func strayForClient(s Step, a *authSim) messages.Message {
	switch s.A % 8 {
	case 0, 1:
		return messages.NewWelcome(uint64(7_000_000+s.B), map[string]any{"authid": "mallory", "authrole": "admin", "authmethod": "anonymous", "roles": map[string]any{}})
	case 2:
		return messages.NewChallenge("cryptosign", map[string]any{"challenge": strings.Repeat("ab", 32)})
	case 3:
		return messages.NewChallenge("wampcra", map[string]any{"challenge": "{}"})
	case 4:
		return messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{"x"}, nil)
	case 5:
		return messages.NewResult(1, nil, nil, nil)
	case 6:
		return messages.NewHello("realm1", "alice", nil, nil, []string{"anonymous"})
	}
	return messages.NewGoodBye("wamp.close.normal", map[string]any{})
}

// ---------------------------------------------------------------- server side

func typeName(m messages.Message) string {
	if m == nil {
		return "nothing"
	}
	n := fmt.Sprintf("%T", m)
	return strings.ToUpper(n[strings.LastIndex(n, ".")+1:])
}

func (a *authSim) toAcceptor(c *authConn, msg messages.Message, s Step) {
	a.cur = nil
	failing := a.failNext > 0
	a.starved = false
	if failing {
		c.noEntropy = true
	}
	var reply messages.Message
	var raw []byte
	var err error
	welcomed, encodeFailed := false, false
	crash := protect(func() {
		if c.wire {
			var in []byte
			in, err = c.ser.Serialize(msg)
			if err != nil {
				return
			}
			raw, welcomed, err = c.acc.Receive(in)
			if c.faultS.failed {
				c.faultS.failed, encodeFailed = false, true
				return
			}
			if err == nil {
				reply, err = c.ser.Deserialize(raw)
			} else if raw != nil {
				if m, e := c.ser.Deserialize(raw); e == nil && (m.Type() == messages.MessageTypeWelcome || m.Type() == messages.MessageTypeChallenge) {
					reply = m
				}
			}
			msg, _ = c.ser.Deserialize(in)
		} else {
			reply, err = c.acc.ReceiveMessage(msg)
			welcomed = reply != nil && err == nil && reply.Type() == messages.MessageTypeWelcome
			if reply != nil && err == nil {
				raw, _ = c.ser.Serialize(reply)
			}
		}
	})
	if strings.Contains(crash, errEntropy.Error()) {
		// an id generator that has no error to return may give up like
		// crypto/rand does: nobody gets in, which is all that is asked for
		a.count("gave-up-without-entropy")
		a.event(fmt.Sprintf("conn %d: %s finds no entropy", c.slot, typeName(msg)))
		c.up = false
		c.gen++
		return
	}
	if crash != "" {
		a.violate("C21", "acceptor-crash", "%s in acceptor state %d crashes it: %s", typeName(msg), c.st, crash)
		a.violate("C13", "acceptor-crash", "%s in acceptor state %d crashes it: %s", typeName(msg), c.st, crash)
		c.up = false
		return
	}
	if encodeFailed {
		a.count("fault:encode-failure")
		a.event(fmt.Sprintf("conn %d: the answer to %s cannot be encoded", c.slot, typeName(msg)))
		a.check("C13")
		if err == nil || len(raw) > 0 || welcomed {
			a.violate("C13", "encode-failure", "the router cannot encode its answer to %s and does not say so", typeName(msg))
			return
		}
		c.up = false // nobody can go on from here
		c.gen++
		return
	}
	if err != nil && reply == nil {
		a.event(fmt.Sprintf("conn %d: %s refused: error", c.slot, typeName(msg)))
		a.log_(c, "%v", err)
	} else {
		a.event(fmt.Sprintf("conn %d: %s -> %s", c.slot, typeName(msg), typeName(reply)))
		if raw != nil {
			a.secretLeak(c, raw, typeName(reply))
		}
	}
	if auth_, ok := msg.(*messages.Authenticate); ok && c.honest && c.met != auth.Anonymous {
		a.log = append(a.log, captured{user: c.user, met: c.met, sig: auth_.Signature(), extra: auth_.Extra(), conn: c.slot})
	}
	if hello, ok := msg.(*messages.Hello); ok && a.p.cfg("defaults") == 1 { // what its built-in database says
		v := authVerdict{method: auth.Anonymous, realm: hello.Realm(), authid: hello.AuthID(), extra: norm(hello.AuthExtra()), ok: true}
		v.resp, _ = auth.NewResponse("anonymous", "anonymous", 0)
		a.cur = append(a.cur, v)
	}
	if err != nil && a.owed > 0 && strings.Contains(err.Error(), errEntropy.Error()) {
		// a failure can also come to light later, where entropy is read ahead
		a.owed--
		failing, c.noEntropy = true, true
	}
	a.judgeReply(c, msg, reply, err, welcomed, failing)
	a.acceptorDetails(c)
	if a.failed() {
		return
	}
	if reply != nil && err == nil && c.join != nil {
		a.sendDown(c, raw, reply)
	}
}

func (a *authSim) log_(c *authConn, f string, args ...any) {
	a.ctx.log("conn %d: "+f, append([]any{c.slot}, args...)...)
}

func replyType(reply messages.Message) uint64 {
	if reply == nil {
		return 0
	}
	return reply.Type()
}

func methodIn(list []auth.Method, m auth.Method) bool {
	for _, x := range list {
		if x == m {
			return true
		}
	}
	return false
}

func (a *authSim) judgeReply(c *authConn, msg, reply messages.Message, err error, welcomed, failing bool) {
	kind := replyType(reply)
	a.check("C13")
	if welcomed != (kind == messages.MessageTypeWelcome && err == nil) {
		a.violate("C13", "welcomed-flag", "Receive says welcomed=%v for a reply of %s", welcomed, typeName(reply))
	}
	if kind != 0 && kind != messages.MessageTypeWelcome && kind != messages.MessageTypeChallenge && kind != messages.MessageTypeAbort {
		a.violate("C13", "foreign-reply", "the acceptor answers %s with %s", typeName(msg), typeName(reply))
		return
	}
	if kind == 0 && err == nil {
		a.violate("C13", "ignored", "a %s that came in state %d of the handshake is neither answered nor an error", typeName(msg), c.st)
		return
	}
	progress := kind == messages.MessageTypeWelcome || kind == messages.MessageTypeChallenge
	if c.st == 3 || c.st == 2 {
		if err == nil && progress {
			a.violate("C13", "reply-after-end", "after the handshake ended (%s) a %s is answered with %s", []string{"", "", "WELCOME", "ABORT"}[c.st], typeName(msg), typeName(reply))
		}
		return
	}
	hello, isHello := msg.(*messages.Hello)
	authenticate, isAuth := msg.(*messages.Authenticate)
	switch {
	case isHello && c.st == 0:
		a.judgeHello(c, hello, reply, err, failing)
	case isAuth && c.st == 1:
		a.judgeAuthenticate(c, authenticate, reply, err, failing)
	default:
		if progress {
			a.violate("C13", "out-of-order", "a %s that came in state %d of the handshake is answered with %s", typeName(msg), c.st, typeName(reply))
			return
		}
		if kind == messages.MessageTypeAbort && err == nil {
			c.st = 3
		}
	}
}

func (a *authSim) judgeHello(c *authConn, hello *messages.Hello, reply messages.Message, err error, failing bool) {
	// the methods both sides agree to
	var common []auth.Method
	for _, m := range hello.AuthMethods() {
		if methodIn(a.methods, auth.Method(m)) {
			common = append(common, auth.Method(m))
		}
	}
	if len(hello.AuthMethods()) == 0 && methodIn(a.methods, auth.Anonymous) {
		common = append(common, auth.Anonymous)
	}
	var ok *authVerdict
	for i := range a.cur {
		v := &a.cur[i]
		a.check("C12")
		if v.realm != hello.Realm() || v.authid != hello.AuthID() || v.extra != norm(hello.AuthExtra()) {
			a.violate("C12", "database-asked-wrong", "HELLO of %q in %q makes the server ask its database about %q in %q", hello.AuthID(), hello.Realm(), v.authid, v.realm)
			return
		}
		if v.ok {
			ok = v
		}
	}
	kind := replyType(reply)
	if err != nil {
		kind = 0
	}
	a.check("C12")
	switch kind {
	case messages.MessageTypeWelcome:
		if !methodIn(common, auth.Anonymous) {
			a.violate("C12", "welcome-without-proof", "HELLO of %q with methods %v, server allows %v, is answered with WELCOME at once", hello.AuthID(), hello.AuthMethods(), a.methods)
			a.violate("C13", "challenge-skipped", "HELLO of %q with methods %v is answered with WELCOME, no challenge was sent", hello.AuthID(), hello.AuthMethods())
			return
		}
		if ok == nil || ok.method != auth.Anonymous {
			a.violate("C12", "welcome-refused-user", "the database did not accept this anonymous client, it is welcomed")
			return
		}
		c.hello, c.method, c.verdict = hello, auth.Anonymous, ok
		a.judgeWelcome(c, reply.(*messages.Welcome))
	case messages.MessageTypeChallenge:
		ch := reply.(*messages.Challenge)
		m := auth.Method(ch.AuthMethod())
		if !methodIn(common, m) || m == auth.Anonymous {
			a.violate("C12", "method-not-agreed", "client proposes %v, server allows %v, challenge is for %s", hello.AuthMethods(), a.methods, m)
			return
		}
		c.st, c.hello, c.method, c.verdict = 1, hello, m, ok
		c.challenge = ""
		if m == auth.WAMPCRA || m == auth.CryptoSign {
			str, isStr := ch.Extra()["challenge"].(string)
			if !isStr || str == "" {
				a.violate("C15", "no-challenge", "CHALLENGE for %s carries no challenge", m)
				a.violate("C14", "no-challenge", "CHALLENGE for %s carries no challenge", m)
				return
			}
			c.challenge = str
			a.check("C15")
			if a.starved {
				a.violate("C15", "challenge-without-entropy", "the entropy source failed, a challenge went out all the same: %s", str)
			}
			if a.chSeen[str] > 0 {
				a.violate("C15", "challenge-repeated", "challenge %s was issued before", str)
			}
			a.chSeen[str]++
			a.chLog = append(a.chLog, str)
		}
		if m == auth.WAMPCRA {
			a.judgeCRAChallenge(c, ch)
		}
		if m == auth.CryptoSign {
			a.check("C14")
			if b, e := hex.DecodeString(c.challenge); e != nil || len(b) != 32 {
				a.violate("C14", "cryptosign-challenge-format", "cryptosign challenge is not 32 bytes in hex: %q", c.challenge)
			}
		}
	case messages.MessageTypeAbort:
		c.st = 3
	}
	if kind == messages.MessageTypeAbort || kind == 0 {
		// refused. Was there a reason?
		if failing || len(common) == 0 || c.honest && c.touched {
			return
		}
		first := common[0]
		for i := range a.cur {
			if !a.cur[i].ok {
				return
			}
		}
		if first == auth.CryptoSign {
			k, isStr := hello.AuthExtra()["pubkey"].(string)
			if !isStr || k == "" {
				return
			}
		}
		if len(common) > 1 && !c.honest {
			return // another method may have been preferred and refused
		}
		a.check("C14")
		a.violate("C14", "refused", "HELLO of %q in %q with %v, which the server allows and its database accepts, is refused: %v", hello.AuthID(), hello.Realm(), hello.AuthMethods(), err)
	}
}

func (a *authSim) judgeCRAChallenge(c *authConn, ch *messages.Challenge) {
	a.check("C14")
	var d map[string]any
	dec := json.NewDecoder(strings.NewReader(c.challenge))
	dec.UseNumber()
	if err := dec.Decode(&d); err != nil {
		a.violate("C14", "cra-challenge-format", "WAMP-CRA challenge is not a JSON object: %q", c.challenge)
		return
	}
	if c.verdict != nil && c.verdict.resp != nil {
		for k, want := range map[string]string{"authid": c.verdict.resp.AuthID(), "authrole": c.verdict.resp.AuthRole(), "authmethod": "wampcra"} {
			if got, _ := d[k].(string); got != want {
				a.violate("C14", "cra-challenge-identity", "WAMP-CRA challenge says %s=%q, the database said %q", k, got, want)
			}
		}
		u := c.verdict.user
		salt, _ := ch.Extra()["salt"].(string)
		if salt != u.salt {
			a.violate("C14", "cra-salt", "challenge salt is %q, the database's is %q", salt, u.salt)
		} else if u.salt != "" && (norm(ch.Extra()["iterations"]) != fmt.Sprint(u.iters) || norm(ch.Extra()["keylen"]) != fmt.Sprint(u.keylen)) {
			a.violate("C14", "cra-salt", "challenge says iterations %v keylen %v, the database %d and %d", ch.Extra()["iterations"], ch.Extra()["keylen"], u.iters, u.keylen)
		}
	}
	if n, ok := d["session"].(json.Number); ok {
		var id uint64
		fmt.Sscan(n.String(), &id)
		c.chSession = id
	}
	if ts, ok := d["timestamp"].(string); ok {
		a.judgeTime("WAMP-CRA challenge timestamp", ts)
	} else {
		a.violate("C27", "no-timestamp", "WAMP-CRA challenge has no timestamp: %s", c.challenge)
	}
}

func (a *authSim) judgeTime(what, ts string) {
	a.check("C27")
	t, err := time.Parse("2006-01-02T15:04:05Z0700", ts)
	if err != nil {
		t, err = time.Parse("2006-01-02T15:04:05Z07:00", ts)
	}
	if err != nil {
		a.violate("C27", "not-iso8601", "%s is %q, which is no ISO 8601 time", what, ts)
		return
	}
	if t.Unix() != a.clocked.Unix() {
		a.violate("C27", "wrong-time", "%s is %q, the clock says %s", what, ts, a.clocked.Format(time.RFC3339))
	}
}

func (a *authSim) judgeAuthenticate(c *authConn, m *messages.Authenticate, reply messages.Message, err error, failing bool) {
	kind := replyType(reply)
	if err != nil {
		kind = 0
	}
	ok, canonical := a.proves(c, m.Signature())
	for i := range a.cur {
		v := &a.cur[i]
		a.check("C12")
		if v.realm != c.hello.Realm() || v.authid != c.hello.AuthID() || (c.method == auth.Ticket && v.secret != m.Signature()) {
			a.violate("C12", "database-asked-wrong", "AUTHENTICATE of %q in %q makes the server ask its database about %q in %q", c.hello.AuthID(), c.hello.Realm(), v.authid, v.realm)
			return
		}
		if v.ok && c.method == auth.Ticket {
			c.verdict = v
		}
	}
	a.check("C12")
	switch kind {
	case messages.MessageTypeChallenge:
		a.violate("C13", "second-challenge", "AUTHENTICATE is answered with another CHALLENGE")
	case messages.MessageTypeWelcome:
		if !ok {
			a.violate("C12", "welcome-without-proof", "%s signature %q for %q and challenge %q is no proof, it is welcomed", c.method, m.Signature(), c.hello.AuthID(), c.challenge)
			return
		}
		if c.spent {
			a.violate("C12", "second-attempt", "conn %d failed to prove its claim once and is welcomed at a later attempt", c.slot)
			a.violate("C13", "second-attempt", "conn %d was refused and is welcomed at a later message", c.slot)
			return
		}
		if c.verdict == nil || !c.verdict.ok {
			a.violate("C12", "welcome-refused-user", "the database did not accept %q, it is welcomed", c.hello.AuthID())
			return
		}
		a.judgeWelcome(c, reply.(*messages.Welcome))
	default:
		if kind == messages.MessageTypeAbort {
			c.st = 3
		}
		if ok && canonical && !c.spent && !failing {
			a.check("C14")
			a.violate("C14", "proof-refused", "%s signature %q is the right answer to challenge %q for %q, it is refused: %v", c.method, m.Signature(), c.challenge, c.hello.AuthID(), err)
		}
		c.spent = true
	}
}

func (a *authSim) judgeWelcome(c *authConn, w *messages.Welcome) {
	c.st, c.welcome = 2, w
	d := w.Details()
	want := map[string]string{"authid": c.verdict.resp.AuthID(), "authrole": c.verdict.resp.AuthRole(), "authmethod": string(c.method)}
	if r, ok := d["realm"]; ok && norm(r) != norm(c.hello.Realm()) {
		a.violate("C12", "wrong-identity", "WELCOME says realm %v, HELLO asked for %q", r, c.hello.Realm())
	}
	a.check("C12")
	for _, k := range sortedKeys(want) {
		if got, _ := d[k].(string); got != want[k] {
			a.violate("C12", "wrong-identity", "WELCOME says %s=%q, the database said %q", k, got, want[k])
		}
	}
	a.check("C14")
	roles, _ := d["roles"].(map[string]any)
	for _, role := range []string{"dealer", "broker"} {
		if _, ok := roles[role].(map[string]any); !ok {
			a.violate("C14", "roles", "WELCOME announces the roles %s, and not %s", norm(d["roles"]), role)
		}
	}
	for _, f := range [][2]string{{"dealer", "progressive_call_invocations"}, {"broker", "publisher_exclusion"}} {
		if !announced(roles, f) {
			a.violate("C14", "roles", "WELCOME announces the roles %s, and not that a %s can do %s", norm(d["roles"]), f[0], f[1])
		}
	}
	if c.chSession != 0 && c.chSession != w.SessionID() {
		a.violate("C14", "session-id-differs", "the challenge was for session %d, WELCOME is for %d", c.chSession, w.SessionID())
	}
	a.check("C19")
	if w.SessionID() == 0 || w.SessionID() > 1<<53 {
		a.violate("C19", "session-id-range", "session id %d", w.SessionID())
	}
	if a.ids[w.SessionID()] {
		a.violate("C19", "session-id-repeated", "session id %d was given out before", w.SessionID())
	}
	a.ids[w.SessionID()] = true
	det, err := c.acc.SessionDetails()
	if err != nil || det == nil {
		return // reported by acceptorDetails
	}
	a.judgeTime("session details' creation time", det.CreatedAt())
	a.check("C12")
	if det.ID() != w.SessionID() || det.Realm() != c.hello.Realm() || det.AuthID() != want["authid"] || det.AuthRole() != want["authrole"] || det.AuthMethod() != string(c.method) {
		a.violate("C12", "wrong-identity", "the router's session details say %d %q %q %q %q, WELCOME says %d, the database said %v in %q", det.ID(), det.Realm(), det.AuthID(), det.AuthRole(), det.AuthMethod(), w.SessionID(), want, c.hello.Realm())
	}
}

func detailString(d *wampproto.SessionDetails) string {
	return fmt.Sprintf("%d %q %q %q %q %s %v", d.ID(), d.Realm(), d.AuthID(), d.AuthRole(), d.AuthMethod(), d.CreatedAt(), d.StaticSerializer())
}

// acceptorDetails: there are session details exactly once the session was welcomed, and they do not change.
func (a *authSim) acceptorDetails(c *authConn) {
	if a.failed() {
		return
	}
	d, err := c.acc.SessionDetails()
	a.check("C13")
	if c.st != 2 {
		if err == nil || d != nil {
			a.violate("C13", "details-early", "the acceptor has session details, the session was not welcomed (state %d)", c.st)
		}
		return
	}
	if err != nil || d == nil {
		a.violate("C13", "details-missing", "the session was welcomed, the acceptor has no details: %v", err)
		return
	}
	s := detailString(d)
	if c.details == "" {
		c.details = s
	}
	if s != c.details {
		a.violate("C13", "details-changed", "session details were %s and became %s", c.details, s)
	}
}

// ---------------------------------------------------------------- client side

func (a *authSim) toJoiner(c *authConn, msg messages.Message, raw []byte) {
	var reply messages.Message
	var out []byte
	var err error
	encodeFailed := false
	crash := protect(func() {
		if c.wire {
			if raw == nil {
				raw, err = c.ser.Serialize(msg)
				if err != nil {
					return
				}
			}
			out, err = c.join.Receive(raw)
			if c.faultC.failed {
				c.faultC.failed, encodeFailed = false, true
				return
			}
			if err == nil && out != nil {
				reply, err = c.ser.Deserialize(out)
			}
			msg, _ = c.ser.Deserialize(raw)
		} else {
			reply, err = c.join.ReceiveMessage(msg)
			if err == nil && reply != nil {
				out, err = c.ser.Serialize(reply)
			}
		}
	})
	if crash != "" {
		a.violate("C21", "joiner-crash", "%s in client state %d crashes the joiner: %s", typeName(msg), c.jst, crash)
		a.violate("C13", "joiner-crash", "%s in client state %d crashes the joiner: %s", typeName(msg), c.jst, crash)
		c.up = false
		return
	}
	if encodeFailed {
		a.count("fault:encode-failure")
		a.event(fmt.Sprintf("conn %d: the answer to %s cannot be encoded", c.slot, typeName(msg)))
		a.check("C13")
		if err == nil || len(out) > 0 {
			a.violate("C13", "encode-failure", "the client cannot encode its answer to %s and does not say so", typeName(msg))
			return
		}
		c.up = false // nobody can go on from here
		c.gen++
		return
	}
	a.event(fmt.Sprintf("client %d: %s -> %s error=%v", c.slot, typeName(msg), typeName(reply), err != nil))
	a.log_(c, "%v", err)
	a.check("C13")
	switch {
	case c.jst == 1 && msg.Type() == messages.MessageTypeChallenge:
		if reply != nil && reply.Type() != messages.MessageTypeAuthenticate {
			a.violate("C13", "foreign-reply", "the joiner answers CHALLENGE with %s", typeName(reply))
			return
		}
		if reply != nil && err == nil {
			c.jst = 2
			a.secretLeak(c, out, "AUTHENTICATE")
			a.sendUp(c, out, reply, Step{})
		} else if !c.touched && c.met != auth.Anonymous {
			a.violate("C14", "no-answer", "the client cannot answer the CHALLENGE: %v", err)
		}
	case (c.jst == 1 || c.jst == 2) && msg.Type() == messages.MessageTypeWelcome:
		if err != nil || reply != nil {
			a.violate("C14", "welcome-refused", "the client in state %d does not take the WELCOME: %v", c.jst, err)
			return
		}
		c.jst, c.jwelcome = 3, msg.(*messages.Welcome)
	default:
		if reply != nil || (err == nil) {
			a.violate("C13", "client-out-of-order", "a %s in client state %d is taken, answer %s", typeName(msg), c.jst, typeName(reply))
			return
		}
		if msg.Type() == messages.MessageTypeAbort && c.jst < 3 {
			c.jst = 4
		}
	}
	d, err := c.join.SessionDetails()
	if c.jst != 3 {
		if err == nil || d != nil {
			a.violate("C13", "details-early", "the client has session details in state %d", c.jst)
		}
		return
	}
	if err != nil {
		a.violate("C13", "details-missing", "the client joined and has no session details: %v", err)
		return
	}
	s := detailString(d)
	if c.jdetails == "" {
		c.jdetails = s
		a.judgeTime("the client's session details' creation time", d.CreatedAt())
		w := c.jwelcome
		a.check("C14")
		str := func(k string) string { v, _ := w.Details()[k].(string); return v }
		if d.ID() != w.SessionID() || d.Realm() != c.realm || d.AuthID() != str("authid") || d.AuthRole() != str("authrole") || d.AuthMethod() != str("authmethod") ||
			norm(d.RouterRoles()) != norm(orEmpty(w.Details()["roles"])) {
			a.violate("C14", "client-details", "the client's details are %s with roles %s, its WELCOME was %d %s", s, norm(d.RouterRoles()), w.SessionID(), norm(w.Details()))
		}
	}
	if s != c.jdetails {
		a.violate("C13", "details-changed", "the client's session details were %s and became %s", c.jdetails, s)
	}
}

func orEmpty(v any) any {
	if v == nil {
		return map[string]any{}
	}
	return v
}

// finishConn judges an honest, undisturbed handshake that had the time to finish.
func (a *authSim) finishConn(c *authConn) {
	if !c.up || !c.honest || len(a.q) > 0 {
		return // still under way
	}
	if c.touched || c.noEntropy {
		return
	}
	a.check("C14")
	u := a.user(c.user)
	joined := c.jst == 3
	expect := c.right && methodIn(a.methods, c.met) && (c.realm != "closed" || a.p.cfg("defaults") == 1)
	if joined != (c.st == 2) {
		a.violate("C14", "half-open", "the client of conn %d is joined=%v, the router's side is welcomed=%v", c.slot, joined, c.st == 2)
		return
	}
	if joined && !expect {
		a.violate("C12", "wrong-credentials", "%s joined %q with %s and should not have (right=%v)", u.id, c.realm, c.met, c.right)
		return
	}
	if !joined && expect {
		a.violate("C14", "not-joined", "%s has the right %s credentials for %q and was not let in", u.id, c.met, c.realm)
		return
	}
	if !joined && c.jst != 4 {
		a.violate("C14", "not-told", "%s was refused by %s in %q and not told so", u.id, c.met, c.realm)
		return
	}
	if joined {
		sd, err1 := c.acc.SessionDetails()
		cd, err2 := c.join.SessionDetails()
		if err1 != nil || err2 != nil {
			return
		}
		if sd.ID() != cd.ID() || sd.Realm() != cd.Realm() || sd.AuthID() != cd.AuthID() || sd.AuthRole() != cd.AuthRole() || sd.AuthMethod() != cd.AuthMethod() ||
			norm(sd.RouterRoles()) != norm(cd.RouterRoles()) || sd.StaticSerializer() != cd.StaticSerializer() {
			a.violate("C14", "sides-disagree", "router: %s, client: %s", detailString(sd), detailString(cd))
		}
		if c.met != auth.Anonymous && c.extra != nil {
			want := a.wantExtra(c)
			if norm(sd.AuthExtra()) != norm(want) {
				a.violate("C14", "authextra", "the client sent authextra %s, the router's details have %s", norm(want), norm(sd.AuthExtra()))
			}
		}
	}
}

// ---------------------------------------------------------------- plans

func genAuth(prop string, seed uint64, tier string) *Plan {
	r := rt.NewPRNG(rt.Mix(seed, 0xa07))
	p := &Plan{Prop: prop, Engine: "auth", Seed: seed, Cfg: map[string]int{}}
	p.Cfg["conns"] = 1 + r.N(4)
	p.Cfg["methods"] = []int{15, 15, 15, 14, 14, 2, 4, 8, 1, 12, 6, 9, 5}[r.N(13)]
	p.Cfg["salted"] = r.N(64)
	p.Cfg["canon"] = r.N(2)
	if r.N(16) == 0 {
		p.Cfg["defaults"] = 1
	}
	p.Cfg["lat"] = []int{0, 5, 50}[r.N(3)]
	realm := func() string {
		if r.N(12) == 0 {
			return "closed"
		}
		return authRealms[r.N(3)]
	}
	var t int64
	id := 0
	gap := 1 + r.N(40)
	add := func(s Step) {
		s.I = id
		id++
		s.At = t
		p.Steps = append(p.Steps, s)
		t += int64(r.N(gap))
	}
	focus := 1 + r.N(3) // favourite method
	method := func() int {
		if r.N(2) == 0 {
			return focus
		}
		return r.N(4)
	}
	victim := r.N(6)
	user := func() int {
		if r.N(2) == 0 {
			return victim
		}
		return r.N(6)
	}
	flags := func() int {
		f := 0
		if r.N(4) == 0 {
			f |= 1
		}
		if r.N(3) == 0 {
			f |= 2
		}
		if r.N(4) == 0 {
			f |= 4
		}
		return f
	}
	n := p.Cfg["conns"]
	open := func(c int) {
		add(Step{C: c, Op: "open", A: user(), B: method(), D: r.N(3), F: flags(), U: realm()})
	}
	proposals := func() string {
		names := []string{}
		for k := r.N(3); k >= 0; k-- {
			switch r.N(8) {
			case 0:
				names = append(names, "anonymous")
			case 1:
				names = append(names, "scram")
			case 2:
				names = append(names, []string{"Ticket", "", "anonymous ", "WAMPCRA"}[r.N(4)])
			default:
				names = append(names, string(authMethods[method()]))
			}
		}
		if r.N(12) == 0 {
			return ""
		}
		return strings.Join(names, ",")
	}
	attack := 0
	switch prop {
	case "C12":
		attack = 60
	case "C13":
		attack = 50
	case "C15":
		attack = 15
	case "C14", "C27":
		attack = 10
	}
	steps := []int{4, 10, 25}[r.N(3)]
	for i := 0; i < steps; i++ {
		c := r.N(n)
		switch k := r.N(100); {
		case k < attack:
			switch r.N(10) {
			case 0, 1, 2, 3:
				// the attacker comes with a name and tries to prove it
				f := flags() &^ 1
				if r.N(8) == 0 {
					f |= 8
				}
				add(Step{C: c, Op: "raw", D: r.N(3), F: f})
				hd := r.N(8)
				if r.N(3) > 0 {
					hd = 0
				}
				s := proposals()
				if r.N(2) == 0 {
					s = string(authMethods[method()])
				}
				add(Step{C: c, Op: "hello", A: user(), D: hd, S: s, U: realm(), F: f})
				for k := r.N(3); k >= 0; k-- {
					ff := 0
					if r.N(4) == 0 {
						ff = 16
					}
					add(Step{C: c, Op: "auth", A: r.N(20), B: r.N(2000), D: r.N(3), F: ff})
				}
			case 4, 5:
				add(Step{C: c, Op: "auth", A: r.N(20), B: r.N(2000), D: r.N(3)})
			case 6:
				add(Step{C: c, Op: "hello", A: user(), D: r.N(8), S: proposals(), U: realm()})
			case 7:
				add(Step{C: c, Op: "msg", A: strayKind(&r, 9)})
			case 8:
				add(Step{C: c, Op: "jmsg", A: strayKind(&r, 8), B: r.N(9)})
			case 9:
				if prop == "C13" && r.N(2) == 0 {
					add(Step{C: c, Op: "again"})
					break
				}
				add(Step{C: c, Op: "dup", A: r.N(2)})
			}
		case k < attack+4:
			add(Step{C: c, Op: "cut"})
		case k < attack+8:
			add(Step{Op: "clock", A: []int{1, -1, 3600, -86400, 400 * 86400, -3 * 365 * 86400}[r.N(6)] * (1 + r.N(5))})
			if prop == "C27" {
				zone := Step{Op: "zone", A: []int{0, 60, -60, 330, -210, 765, -720, 840, -30, 30, 1, -1, 345}[r.N(13)]}
				if r.N(4) == 0 { // local mean time and the like
					zone.B = []int{1, -1, 30, -30, 59, -59, 172 % 60, -r.N(60)}[r.N(8)]
				}
				add(zone)
			}
		case k < attack+10:
			add(Step{Op: "entropy", A: 1 + r.N(2)})
			add(Step{C: c, Op: "open", A: user(), B: 2 + r.N(2), D: r.N(3), F: flags(), U: realm()})
			t += int64(3 * (p.Cfg["lat"] + 1))
			add(Step{Op: "entropy", A: 0})
		case k < attack+12:
			add(Step{C: c, Op: "slow", A: r.N(100), B: r.N(100)})
		case k < attack+14:
			open(c)
			if r.N(2) == 0 {
				t += int64(r.N(2 * (p.Cfg["lat"] + 1)))
			}
			add(Step{C: c, Op: "encfail", A: r.N(2)})
		default:
			open(c)
			if r.N(2) == 0 {
				t += int64(6 * (p.Cfg["lat"] + 1)) // let it finish
			}
		}
	}
	// in the end everybody tries once more, undisturbed
	t += 100000
	add(Step{Op: "entropy", A: 0})
	for c := 0; c < n; c++ {
		open(c)
	}
	return p
}

// ---------------------------------------------------------------- freshness

// The freshness engine issues the same challenge again and again, with one bit
// of the entropy source changed each time, to see how much of it the challenge
// really depends on.
func runFresh(p *Plan, trace bool) *Result {
	c := newCtx(p.Prop, trace)
	rt.SingleTask(true)
	defer func() { rt.Entropy = nil; rt.SingleTask(false) }()
	via := p.cfg("via")
	user := authUser{id: "alice", role: "r", secret: "secret", salt: []string{"", "salt"}[p.cfg("salted")], iters: 2, keylen: 16}
	type outcome struct {
		ch    string
		drawn int
		fails int
		err   error
		crash string
	}
	// issue runs one challenge with the entropy stream of seed es, bit flip (or -1), and a failing read.
	issue := func(es uint64, flip, fail int, rs uint64, clock int64) outcome {
		rt.SeedRand(rs)
		rt.SetClock(clock, nil)
		g := rt.NewPRNG(es)
		var o outcome
		reads := 0
		rt.Entropy = func(b []byte) (int, error) {
			reads++
			if fail > 0 && reads >= fail {
				o.fails++
				return 0, errEntropy
			}
			for i := range b {
				b[i] = byte(g.U64())
				if flip >= 0 && flip/8 == o.drawn {
					b[i] ^= 1 << (flip % 8)
				}
				o.drawn++
			}
			return len(b), nil
		}
		o.crash = protect(func() {
			switch via {
			case 0:
				o.ch, o.err = auth.GenerateWAMPCRAChallenge(12345, "alice", "r", "dynamic")
			case 1:
				o.ch, o.err = auth.GenerateCryptoSignChallenge()
			case 4: // a key pair must not be guessed either
				var pub string
				pub, o.ch, o.err = auth.GenerateCryptoSignKeyPair()
				if o.err == nil && pub != publicOf(o.ch) {
					c.violate("C15", "key-pair", "%s is not the public key of %s", pub, o.ch)
				}
			default:
				m := []auth.Method{auth.WAMPCRA, auth.CryptoSign}[via%2]
				acc := wampproto.NewAcceptor(serializerOf(p.cfg("ser")), freshDB{user})
				reply, err := acc.ReceiveMessage(messages.NewHello("realm1", "alice", map[string]any{"pubkey": strings.Repeat("ab", 32)}, nil, []string{string(m)}))
				o.err = err
				if err == nil && reply.Type() == messages.MessageTypeChallenge {
					o.ch, _ = reply.(*messages.Challenge).Extra()["challenge"].(string)
				} else if err == nil {
					o.err = fmt.Errorf("answered with %s", typeName(reply))
				}
			}
		})
		return o
	}
	const clock = 1_700_000_000_000_000_000
	settleEntropy(p.Seed)
	base := issue(p.Seed, -1, 0, 1, clock)
	c.event(base.ch)
	if base.crash != "" || base.err != nil || base.ch == "" {
		c.violate("C15", "no-challenge", "no challenge: %v %s", base.err, base.crash)
		return c.done()
	}
	again := issue(p.Seed, -1, 0, 1, clock)
	if again.ch != base.ch {
		// not a function of the simulated sources: something else is random in it
		c.count("not-repeatable")
	}
	outside := again.ch != base.ch && base.drawn == 0 // it draws from a source that is not simulated
	for _, s := range p.Steps {
		if outside && s.Op != "fresh" && s.Op != "many" {
			continue
		}
		switch s.Op {
		case "sweep":
			// every bit of what was drawn
			matter := 0
			for b := 0; b < base.drawn*8; b++ {
				if o := issue(p.Seed, b, 0, 1, clock); o.ch != base.ch {
					matter++
				}
			}
			c.check("C15")
			c.res.Stats["entropy-bits-flipped"] += int64(base.drawn * 8)
			c.event(fmt.Sprintf("%d of %d bits matter", matter, base.drawn*8))
			if matter < 128 {
				c.violate("C15", "too-little-entropy", "a challenge depends on %d bits of the entropy source, of %d it drew (at least 128 wanted)", matter, base.drawn*8)
			}
		case "fresh":
			// another moment of the entropy stream and nothing else: another challenge
			o := issue(p.Seed+uint64(s.A)+1, -1, 0, 1, clock)
			c.check("C15")
			if o.ch == base.ch {
				c.violate("C15", "challenge-repeated", "two challenges under the same clock are equal: %s", o.ch)
			}
		case "fail":
			o := issue(p.Seed, -1, 1+s.A, 1, clock)
			c.check("C15")
			c.count("fault:entropy-failure")
			if o.fails == 0 {
				continue // the failing read was never made
			}
			if o.err == nil && o.crash == "" && o.ch != "" {
				c.violate("C15", "challenge-without-entropy", "the entropy source failed, a challenge came out all the same: %s", o.ch)
			}
		case "many":
			seen := map[string]bool{}
			rt.SeedRand(1)
			g := rt.NewPRNG(p.Seed ^ 0x77)
			drawn := 0
			for i := 0; i < s.A; i++ {
				if i == s.A/2 {
					drawn = 0
				}
				rt.SetClock(clock, nil)
				var ch string
				rt.Entropy = func(b []byte) (int, error) {
					for i := range b {
						b[i] = byte(g.U64())
					}
					drawn += len(b)
					return len(b), nil
				}
				if via == 4 {
					_, ch, _ = auth.GenerateCryptoSignKeyPair()
				} else if via%2 == 0 {
					ch, _ = auth.GenerateWAMPCRAChallenge(1, "a", "b", "c")
				} else {
					ch, _ = auth.GenerateCryptoSignChallenge()
				}
				c.check("C15")
				if seen[ch] {
					c.violate("C15", "challenge-repeated", "challenge %s came twice", ch)
				}
				seen[ch] = true
			}
			// what is drawn ahead is drawn all the same, if not for each
			if half := s.A - s.A/2; s.A >= 1000 && drawn > 0 && drawn < 16*(half-500) {
				c.violate("C15", "too-little-entropy", "%d challenges in a row took %d bytes from the entropy source", half, drawn)
			}
		}
	}
	return c.done()
}

type freshDB struct{ u authUser }

func (freshDB) Methods() []auth.Method { return authMethods }
func (d freshDB) Authenticate(req auth.Request) (auth.Response, error) {
	if req.AuthMethod() == auth.WAMPCRA {
		if d.u.salt != "" {
			return auth.NewCRAResponseSalted("alice", "r", d.u.secret, d.u.salt, d.u.iters, d.u.keylen, 0), nil
		}
		return auth.NewCRAResponse("alice", "r", d.u.secret, 0), nil
	}
	return auth.NewResponse("alice", "r", 0)
}

func genFresh(prop string, seed uint64) *Plan {
	r := rt.NewPRNG(rt.Mix(seed, 0xf4e5))
	p := &Plan{Prop: prop, Engine: "fresh", Seed: seed, Cfg: map[string]int{"via": r.N(5), "salted": r.N(2), "ser": r.N(3)}}
	add := func(s Step) {
		s.I = len(p.Steps)
		p.Steps = append(p.Steps, s)
	}
	for k := 1 + r.N(3); k > 0; k-- {
		add(Step{Op: "fresh", A: r.N(1000)})
		add(Step{Op: "fail", A: r.N(3)})
	}
	if r.N(3) == 0 {
		add(Step{Op: "sweep"})
	}
	if r.N(4) == 0 {
		add(Step{Op: "many", A: []int{50, 50, 50, 50, 50, 50, 50, 20000}[r.N(8)]})
	}
	return p
}

func genAuthOrFresh(prop string, seed uint64, tier string) *Plan {
	r := rt.NewPRNG(rt.Mix(seed, 0x51))
	if prop == "C15" && r.N(2) == 0 {
		return genFresh(prop, seed)
	}
	return genAuth(prop, seed, tier)
}

func strayKind(r *rt.PRNG, likely int) int {
	if r.N(3) == 0 {
		return likely + r.N(24)
	}
	return r.N(likely)
}

// announced says whether roles name a feature of a role.
func announced(roles map[string]any, feature [2]string) bool {
	role, _ := roles[feature[0]].(map[string]any)
	features, _ := role["features"].(map[string]any)
	yes, _ := features[feature[1]].(bool)
	return yes
}

// settleEntropy lets a failure of the last run's entropy source come to light
// before this run, should entropy be read ahead: it draws until it sees a read.
func settleEntropy(seed uint64) {
	was, g, reads := rt.Entropy, rt.NewPRNG(rt.Mix(seed, 4)), 0
	rt.Entropy = func(b []byte) (int, error) {
		reads++
		for i := range b {
			b[i] = byte(g.U64())
		}
		return len(b), nil
	}
	for _, draw := range []func() error{
		func() error { _, err := auth.GenerateWAMPCRAChallenge(1, "", "", ""); return err },
		func() error { _, err := auth.GenerateCryptoSignChallenge(); return err },
		func() error { _, _, err := auth.GenerateCryptoSignKeyPair(); return err },
	} {
		for try := 0; try < 600; try++ {
			n := reads
			var err error
			if crash := protect(func() { err = draw() }); crash != "" || err == nil && reads > n {
				break
			}
		}
	}
	rt.Entropy = was
}

package main

import (
	"container/heap"
	"fmt"
	"strconv"
	"strings"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
	rt "github.com/xconnio/wampproto-go/zzsimrt"
)

// The world engine: one router (real Dealer and Broker) and some clients in a
// discrete-event simulation. Clients talk to the router over ordered links
// with latency; a link can be cut at any moment. In wire mode the links carry
// bytes: real client Session, real serializers, real rawsocket framing.

type event struct {
	at  int64
	seq uint64
	f   func()
}

type eventQueue []event

func (q eventQueue) Len() int { return len(q) }
func (q eventQueue) Less(i, j int) bool {
	return q[i].at < q[j].at || (q[i].at == q[j].at && q[i].seq < q[j].seq)
}
func (q eventQueue) Swap(i, j int) { q[i], q[j] = q[j], q[i] }
func (q *eventQueue) Push(x any)   { *q = append(*q, x.(event)) }
func (q *eventQueue) Pop() any {
	old := *q
	e := old[len(old)-1]
	*q = old[:len(old)-1]
	return e
}

const (
	serJSON = iota
	serCBOR
	serMsgPack
	serStatic // a stub for a serializer that keeps payloads binary
)

func serializerOf(kind int) serializers.Serializer {
	switch kind {
	case serCBOR:
		return &serializers.CBORSerializer{}
	case serMsgPack:
		return &serializers.MsgPackSerializer{}
	}
	return &serializers.JSONSerializer{}
}

type client struct {
	slot    int
	gen     int
	live    bool // the connection is up, as the client sees it
	stop    bool // the process is gone: it reacts to nothing
	sess    uint64
	ser     int
	req     uint64
	upAt    int64 // arrival of the last message on each direction
	downAt  int64
	slow    int64 // latency multiplier
	regs    []uint64
	subs    []uint64
	invs    []uint64 // invocations it has seen
	session *wampproto.Session
	foreign bool // a client of another implementation
	upBuf   []byte
	downBuf []byte
	upDead  bool

	sentRegs map[uint64]string
	outs     map[uint64]*outReq // outstanding requests
	open     map[string]uint64  // calls sent: token -> request id
	prog     map[uint64]bool    // request ids of progressive calls
	settled  map[uint64]bool    // invocations it gave its final answer to
}

// outReq is a request that its client still waits for.
type outReq struct {
	kind string
	tok  string
	step int
	at   int64
}

// behaviour is what a callee does with an invocation of a call.
type behaviour struct {
	kind  int
	n     int
	delay int64
	step  int
}

type world struct {
	kept  []kept // what waits to be sent
	keptN int

	*ctx
	p   *Plan
	q   eventQueue
	seq uint64

	dealer *wampproto.Dealer
	broker *wampproto.Broker
	epoch  int

	cl     []*client
	bySess map[uint64]*client
	beh    map[string]behaviour
	j      *judge

	nextSess                    uint64
	sessStep, reqStep, firstReq uint64
	usedSess                    []uint64
	invLog                      []uint64 // invocation ids in order of appearance
	wire                        bool
	maxLat                      int

	cancelled bool
}

func (w *world) at(t int64, f func()) {
	if t < w.now {
		t = w.now
	}
	w.seq++
	heap.Push(&w.q, event{t, w.seq, f})
}

// rand is the randomness of one purpose of one step: independent of everything else in the plan.
func (w *world) rand(step int, purpose string) rt.PRNG {
	return rt.NewPRNG(rt.Mix(w.p.Seed^hashString(purpose), uint64(step)))
}

func runWorld(p *Plan, trace bool) *Result {
	w := &world{ctx: newCtx(p.Prop, trace), p: p, bySess: map[uint64]*client{}, beh: map[string]behaviour{}}
	rt.SeedRand(rt.Mix(p.Seed, 1))
	rt.SeedMaps(rt.Mix(p.Seed, 2))
	rt.SetClock(1_700_000_000_000_000_000, nil)
	rt.SingleTask(true)
	w.wire = p.cfg("wire") == 1
	w.maxLat = p.cfg("lat")
	w.nextSess, w.sessStep, w.reqStep = 1000, 1, 1
	switch p.cfg("wide") { // ids that look alike where only some of their bits are looked at
	case 1:
		w.sessStep, w.reqStep = 1<<32, 1<<32
	case 2:
		w.nextSess, w.firstReq = 1<<53-1<<20, 1<<31-3
	case 3:
		w.sessStep, w.reqStep, w.firstReq = 1<<16, 1<<16, 1<<32-1
	}
	w.j = newJudge(w)
	w.newRouter()
	n := p.cfg("clients")
	for i := 0; i < n; i++ {
		w.cl = append(w.cl, &client{slot: i, slow: 1})
	}
	for i := range p.Steps {
		s := p.Steps[i]
		w.at(s.At, func() { w.step(s) })
	}
	events := 0
	for len(w.q) > 0 && !w.failed() {
		e := heap.Pop(&w.q).(event)
		w.now = e.at
		events++
		if events > 1000000 {
			w.violate(w.prop, "no-quiescence", "the simulation does not come to rest")
			break
		}
		e.f()
	}
	if !w.failed() && !w.cancelled {
		w.j.atEnd()
	}
	w.res.Stats["events"] += int64(events)
	rt.SingleTask(false)
	return w.done()
}

func (w *world) newRouter() {
	w.dealer = wampproto.NewDealer()
	w.broker = wampproto.NewBroker()
	w.bySess = map[uint64]*client{}
	w.invLog = nil
	w.epoch++
	w.j.reset()
}

// ---------------------------------------------------------------- client actions

func (w *world) c(i int) *client { return w.cl[((i%len(w.cl))+len(w.cl))%len(w.cl)] }

func (w *world) step(s Step) {
	c := w.c(s.C)
	switch s.Op {
	case "join":
		w.join(c, s)
		return
	case "restart":
		w.count("fault:router-restart")
		w.event("router restart")
		for _, c := range w.cl {
			w.dropConn(c)
		}
		w.newRouter()
		return
	case "disclose":
		w.event(fmt.Sprintf("disclose caller=%d publisher=%d", s.A, s.B))
		w.guard("disclose", func() {
			w.dealer.AutoDiscloseCaller(s.A == 1)
			w.broker.AutoDisclosePublisher(s.B == 1)
		})
		w.j.discloseCaller, w.j.disclosePublisher = s.A == 1, s.B == 1
		return
	case "has":
		w.j.probeHas(s.U)
		return
	case "ghost": // a message whose sender is no longer, or never was, attached
		w.ghost(s)
		return
	case "removeunknown":
		w.removeUnknown(s)
		return
	}
	if !c.live {
		return
	}
	switch s.Op {
	case "leave": // orderly: what was sent is processed first
		w.event(fmt.Sprintf("client %d (session %d) leaves", c.slot, c.sess))
		w.send(c, s, nil, "leave")
		c.live = false
	case "crash":
		w.crash(c, s)
	case "dupattach":
		w.dupAttach(c)
	case "slow":
		c.slow = int64(1 + s.A)
		w.count("fault:slow-link")
		w.at(w.now+int64(s.F), func() { c.slow = 1 })
	case "reg":
		opts := map[string]any{}
		if m := matchNames[s.A]; m != "" {
			opts["match"] = m
		}
		if v := invokeNames[s.B]; v != "" {
			if v == "random" && w.p.cfg("unknown") == 1 {
				v = oddPolicy
			}
			opts["invoke"] = v
		}
		c.req += w.reqStep
		c.sentRegs[c.req] = s.U
		w.send(c, s, messages.NewRegister(c.req, w.options(s, opts), s.U), "")
	case "unreg":
		id, ok := pick(c.regs, s.A)
		if s.B == 1 { // somebody else's, or nobody's
			id, ok = w.j.anyRegID(s.A), true
		}
		if s.B >= 2 {
			id = alike(id, s.B)
		}
		if !ok {
			return
		}
		c.req += w.reqStep
		w.send(c, s, messages.NewUnregister(c.req, id), "")
	case "sub":
		opts := map[string]any{}
		if m := matchNames[s.A]; m != "" {
			opts["match"] = m
		}
		c.req += w.reqStep
		w.send(c, s, messages.NewSubscribe(c.req, w.options(s, opts), s.U), "")
	case "unsub":
		id, ok := pick(c.subs, s.A)
		if s.B == 1 {
			id, ok = w.j.anySubID(s.A), true
			if w.wire {
				ok = false // the client's own session refuses it
			}
		}
		if s.B >= 2 && !w.wire {
			id = alike(id, s.B)
		}
		if !ok {
			return
		}
		c.req += w.reqStep
		w.send(c, s, messages.NewUnsubscribe(c.req, id), "")
	case "call":
		c.req += w.reqStep
		w.sendCall(c, s, c.req, false)
	case "pcall": // first chunk of a progressive call; D chunks in all
		w.progressiveCall(c, s)
	case "pub":
		opts := map[string]any{}
		switch s.A & 3 {
		case 1:
			opts["acknowledge"] = true
		case 2:
			opts["acknowledge"] = false
		}
		switch s.B & 3 {
		case 1:
			opts["exclude_me"] = false
		case 2:
			opts["exclude_me"] = true
		}
		c.req += w.reqStep
		args, kwargs := w.payload(s.I, fmt.Sprintf("p%d", s.I), c)
		w.send(c, s, messages.NewPublish(c.req, w.options(s, opts), s.U, args, kwargs), "")
	case "cancel":
		w.cancel(c, s)
	case "fyield", "ferr":
		// a reply by a session that is neither caller nor callee, or that names nothing.
		id, ok := w.pickInv(s.A)
		if s.B == 1 || !ok {
			id = uint64(100000 + s.A)
		}
		if s.B == 2 && len(c.invs) > 0 {
			id = c.invs[len(c.invs)-1-((s.A%len(c.invs))+len(c.invs))%len(c.invs)] // its own, again
			if s.F > 0 {
				id = alike(id, []int{0, 3, 4}[s.F%3]) // so high that none is ever given
			}
		}
		if inv := w.j.invs[id]; inv != nil && inv.caller == c.sess {
			return // not decided: the test suite pins that a caller may reply to itself
		}
		args, kwargs := w.payload(s.I, fmt.Sprintf("f%d", s.I), c)
		if s.Op == "fyield" {
			opts := map[string]any{}
			if s.D == 1 {
				opts["progress"] = true
			}
			w.send(c, s, messages.NewYield(id, opts, args, kwargs), "")
		} else {
			w.send(c, s, messages.NewError(messages.MessageTypeInvocation, id, map[string]any{}, "com.err.f", args, kwargs), "")
		}
	default:
		panic("unknown step " + s.Op)
	}
}

// cancel is what a caller may send for an open call, since the router
// announces call canceling: the call then ends, whatever the callee does.
func (w *world) cancel(c *client, s Step) {
	toks := []string{}
	for _, tok := range sortedKeys(c.open) {
		if o := c.outs[c.open[tok]]; o != nil && o.kind == "call" {
			toks = append(toks, tok)
		}
	}
	if len(toks) == 0 || w.bySess[c.sess] != c {
		return
	}
	req := c.open[toks[s.A%len(toks)]]
	roles, _ := wampproto.RouterRoles["dealer"].(map[string]any)
	features, _ := roles["features"].(map[string]any)
	if announced, _ := features[wampproto.FeatureCallCancelling].(bool); !announced {
		return
	}
	w.count("cancel")
	w.check("C26")
	var err error
	mode := []string{"skip", "kill", "killnowait"}[s.B%3]
	if crash := protect(func() {
		_, err = w.dealer.ReceiveMessage(c.sess, messages.NewCancel(req, map[string]any{"mode": mode}))
	}); crash != "" {
		w.violate("C26", "crash", "the router crashed on a CANCEL of session %d: %s", c.sess, crash)
		return
	}
	w.event(fmt.Sprintf("session %d cancels call %d (%s): %s", c.sess, req, mode, errWord(err)))
	if err != nil {
		w.known("KF-C")
		return
	}
	w.q = nil // what follows is for a model of cancelling to judge: there is none
	w.cancelled = true
}

var matchNames = []string{"", "exact", "prefix", "wildcard"}

// oddPolicy is one that nobody has defined: a router may refuse it or share the
// procedure among those who ask for it.
const oddPolicy = "sharded"

// alike is an id that looks like another where only some of the bits are looked at.
func alike(id uint64, k int) uint64 {
	return id ^ []uint64{1 << 32, 1 << 16, 1 << 8, 1 << 48, 1 << 52}[k%5]
}

var invokeNames = []string{"", "single", "first", "last", "roundrobin", "random"}

func pick(ids []uint64, i int) (uint64, bool) {
	if len(ids) == 0 {
		return 0, false
	}
	return ids[((i%len(ids))+len(ids))%len(ids)], true
}

func (w *world) pickInv(i int) (uint64, bool) {
	// prefers recent ones
	n := len(w.invLog)
	if n == 0 {
		return 0, false
	}
	k := i % 6
	if k >= n {
		k = n - 1
	}
	return w.invLog[n-1-k], true
}

// join attaches a client that is not attached. A is the serializer, B picks a
// session id that was used before, D its credentials.
func (w *world) join(c *client, s Step) {
	if c.live {
		return
	}
	if c.sess != 0 && w.bySess[c.sess] == c {
		return // the router has not noticed yet that the old connection is gone
	}
	sess := w.nextSess
	w.nextSess += w.sessStep
	if s.B > 0 && len(w.usedSess) > 0 {
		old := w.usedSess[s.B%len(w.usedSess)]
		if w.bySess[old] == nil {
			sess = old
			w.count("session-id-reused")
		}
	}
	gen := c.gen + 1
	*c = client{slot: c.slot, gen: gen, live: true, sess: sess, ser: s.A % 4, slow: 1,
		sentRegs: map[uint64]string{}, outs: map[uint64]*outReq{}, open: map[string]uint64{}, prog: map[uint64]bool{}, settled: map[uint64]bool{}}
	c.req = w.firstReq
	w.usedSess = append(w.usedSess, sess)
	if w.wire && c.ser != serStatic {
		c.session = wampproto.NewSession(serializerOf(c.ser))
		if c.ser == serJSON && gen%2 == 0 {
			c.session = wampproto.NewSession(nil) // JSON is what it takes then
		}
		c.foreign = s.F == 1
	}
	authid, role := fmt.Sprintf("id%d", s.D), fmt.Sprintf("role%d", s.D%3)
	switch s.D {
	case 5:
		role = "" // a user may have no role, and no name
	case 7:
		authid = ""
	case 8:
		authid, role = "rôle 2", "id1"
	}
	static := c.ser == serStatic
	if !static { // the transport asks the serializer
		static = serializerOf(c.ser).Static()
	}
	det := wampproto.NewSessionDetails(sess, "realm1", authid, role, "ticket", static, nil, nil)
	var err error
	w.bySess[sess] = c
	w.guard("attach", func() {
		if err = w.dealer.AddSession(det); err == nil {
			err = w.broker.AddSession(det)
		}
	})
	w.event(fmt.Sprintf("client %d joins as session %d (serializer %d, %s/%s): %v", c.slot, sess, c.ser, authid, role, errWord(err)))
	w.j.joined(sess, authid, role, c.ser == serStatic, err)
}

func errWord(err error) string {
	if err == nil {
		return "ok"
	}
	return "refused"
}

// dropConn forgets a connection without telling anyone.
func (w *world) dropConn(c *client) {
	c.live, c.stop = false, true
	c.gen++
	c.sess = 0
}

// crash cuts a connection: of what the client sent, a prefix of what is in
// flight arrives; of what is in flight to it, nothing. The router notices later.
func (w *world) crash(c *client, s Step) {
	w.event(fmt.Sprintf("client %d (session %d) crashes", c.slot, c.sess))
	w.count("fault:crash")
	c.live, c.stop = false, true
	// everything after the cut is lost on the way up as well.
	cut := w.now + int64(s.A)
	gen := c.gen
	w.at(cut, func() {
		if c.gen == gen {
			c.upDead = true
		}
	})
	w.at(cut+1+int64(s.F), func() {
		if c.gen == gen {
			w.detach(c)
		}
	})
}

// detach is the router's side of a connection's end.
func (w *world) detach(c *client) {
	if w.bySess[c.sess] != c {
		return
	}
	delete(w.bySess, c.sess)
	var err1, err2 error
	w.guard("leave", func() {
		err1 = w.dealer.RemoveSession(c.sess)
		err2 = w.broker.RemoveSession(c.sess)
	})
	w.event(fmt.Sprintf("router removes session %d: %s %s", c.sess, errWord(err1), errWord(err2)))
	w.j.left(c.sess, err1, err2)
	c.live = false
	c.stop = true
	c.sess = 0
	c.gen++
}

func (w *world) dupAttach(c *client) {
	if w.bySess[c.sess] != c {
		return
	}
	det := wampproto.NewSessionDetails(c.sess, "realm1", "intruder", "intruder", "ticket", false, nil, nil)
	var err1, err2 error
	w.guard("attach", func() {
		err1 = w.dealer.AddSession(det)
		err2 = w.broker.AddSession(det)
	})
	w.event(fmt.Sprintf("second attach of session %d: %s %s", c.sess, errWord(err1), errWord(err2)))
	w.count("fault:duplicate-attach")
	w.check("C11")
	w.j.dups[c.sess] = true
	if err1 == nil || err2 == nil {
		w.violate("C11", "duplicate-attach", "session %d is attached, yet attaching it again succeeded (dealer: %v, broker: %v)", c.sess, err1, err2)
	}
}

func (w *world) removeUnknown(s Step) {
	id := uint64(900000 + s.A)
	if s.B == 1 && len(w.usedSess) > 0 {
		id = w.usedSess[s.A%len(w.usedSess)]
	}
	if s.B >= 2 && len(w.usedSess) > 0 {
		id = alike(w.usedSess[len(w.usedSess)-1-s.A%len(w.usedSess)], s.B)
	}
	if w.bySess[id] != nil {
		return
	}
	var err1, err2 error
	w.guard("leave", func() {
		err1 = w.dealer.RemoveSession(id)
		err2 = w.broker.RemoveSession(id)
	})
	w.event(fmt.Sprintf("remove of unattached session %d: %s %s", id, errWord(err1), errWord(err2)))
	w.check("C11")
	if err1 == nil || err2 == nil {
		w.violate("C11", "remove-unknown", "removing session %d, which is not attached, reported success (dealer: %v, broker: %v)", id, err1, err2)
	}
}

// ghost delivers a message from a session that is not attached.
func (w *world) ghost(s Step) {
	id := uint64(800000 + s.A)
	if s.B&1 == 1 && len(w.usedSess) > 0 {
		id = w.usedSess[s.A%len(w.usedSess)]
	} else if s.B >= 2 && len(w.usedSess) > 0 {
		id = alike(w.usedSess[len(w.usedSess)-1-s.A%len(w.usedSess)], s.B)
	}
	if w.bySess[id] != nil {
		return
	}
	w.count("fault:straggler")
	args, kwargs := w.payload(s.I, fmt.Sprintf("g%d", s.I), nil)
	var msg messages.Message
	switch s.D % 8 {
	case 0:
		msg = messages.NewCall(uint64(1+s.A%5), nil, s.U, args, kwargs)
	case 1:
		msg = messages.NewPublish(uint64(1+s.A%5), map[string]any{"acknowledge": true}, s.U, args, kwargs)
	case 2:
		opts := map[string]any{}
		if m := matchNames[s.A%4]; m != "" {
			opts["match"] = m
		}
		msg = messages.NewRegister(1, opts, s.U)
	case 3:
		msg = messages.NewSubscribe(1, nil, s.U)
	case 4:
		msg = messages.NewUnregister(1, w.j.anyRegID(s.A))
	case 5:
		msg = messages.NewUnsubscribe(1, w.j.anySubID(s.A))
	case 6:
		inv, ok := w.pickInv(s.A)
		if !ok {
			return
		}
		msg = messages.NewYield(inv, nil, args, kwargs)
	case 7:
		inv, ok := w.pickInv(s.A)
		if !ok {
			return
		}
		msg = messages.NewError(messages.MessageTypeInvocation, inv, map[string]any{}, "com.err.g", args, kwargs)
	}
	w.route(id, msg)
}

func (w *world) callOptions(s Step) map[string]any {
	opts := map[string]any{}
	switch s.A & 3 {
	case 1:
		opts["receive_progress"] = true
	case 2:
		opts["receive_progress"] = false
	}
	return w.options(s, opts)
}

func (w *world) sendCall(c *client, s Step, req uint64, progress bool) {
	tok := fmt.Sprintf("k%d", s.I)
	w.beh[tok] = behaviour{kind: s.B, n: s.D, delay: int64(s.F), step: s.I}
	opts := w.callOptions(s)
	args, kwargs := w.payload(s.I, tok, c)
	w.send(c, s, w.newCall(c, req, opts, s.U, args, kwargs, s.I), tok)
}

// progressiveCall sends chunks of one call with pauses between them.
func (w *world) progressiveCall(c *client, s Step) {
	tok := fmt.Sprintf("k%d", s.I)
	w.beh[tok] = behaviour{kind: s.B, n: s.D & 7, delay: int64(s.F), step: s.I}
	c.req += w.reqStep
	req := c.req
	c.prog[req] = true
	n := 1 + s.D>>3
	gen := c.gen
	r := w.rand(s.I, "chunks")
	t := w.now
	for i := 0; i <= n; i++ {
		i := i
		fire := func() {
			if !c.live || c.gen != gen {
				return
			}
			opts := w.callOptions(s)
			if i > 0 && s.A&3 == 1 && r.N(3) == 0 {
				delete(opts, "receive_progress") // it has asked already
			}
			if i < n {
				opts["progress"] = true
			} else if s.A&4 != 0 {
				opts["progress"] = false
			}
			args, kwargs := w.payload(s.I*16+i, fmt.Sprintf("%s#%d/%d", tok, i, n), c)
			w.send(c, s, w.newCall(c, req, opts, s.U, args, kwargs, s.I*16+i), tok)
		}
		if i == 0 {
			fire()
			continue
		}
		t += int64(1 + r.N(1+s.F*2))
		w.at(t, fire)
	}
}

func listOf(v any) []any          { l, _ := v.([]any); return l }
func dictOf(v any) map[string]any { d, _ := v.(map[string]any); return d }

// binaryCall is a CALL whose payload stays encoded, as a static serializer delivers it.
type binaryCall struct {
	req     uint64
	opts    map[string]any
	uri     string
	payload []byte
	codec   uint64
	decode  func() ([]any, map[string]any)
}

func (b *binaryCall) RequestID() uint64         { return b.req }
func (b *binaryCall) Options() map[string]any   { return b.opts }
func (b *binaryCall) Procedure() string         { return b.uri }
func (b *binaryCall) PayloadIsBinary() bool     { return true }
func (b *binaryCall) Payload() []byte           { return b.payload }
func (b *binaryCall) PayloadSerializer() uint64 { return b.codec }
func (b *binaryCall) Args() []any               { a, _ := b.decode(); return a }
func (b *binaryCall) KwArgs() map[string]any    { _, k := b.decode(); return k }

type binaryYield struct {
	req     uint64
	opts    map[string]any
	payload []byte
	codec   uint64
	decode  func() ([]any, map[string]any)
}

func (b *binaryYield) RequestID() uint64         { return b.req }
func (b *binaryYield) Options() map[string]any   { return b.opts }
func (b *binaryYield) PayloadIsBinary() bool     { return true }
func (b *binaryYield) Payload() []byte           { return b.payload }
func (b *binaryYield) PayloadSerializer() uint64 { return b.codec }
func (b *binaryYield) Args() []any               { a, _ := b.decode(); return a }
func (b *binaryYield) KwArgs() map[string]any    { _, k := b.decode(); return k }

// encoded is a payload as a static serializer carries it. The library's own
// encoding is compared with what it should be; what is sent is another one of
// the same values, for the order of the library's is not under control.
func (w *world) encoded(step int, args []any, kwargs map[string]any) (payload []byte, codec uint64, decode func() ([]any, map[string]any)) {
	defer func() {
		want := normPayload(args, kwargs)
		decode = func() ([]any, map[string]any) {
			w.check("C20")
			a, k, err := serializers.DeserializePayload(codec, payload)
			if got := normPayload(a, k); err != nil || got != want {
				w.violate("C20", "payload-decoding", "the payload %s, encoded with serializer %d as %s, is decoded as %s (%v)", want, codec, hexOf(payload), got, err)
			}
			return a, k
		}
	}()
	r := w.rand(step, "codec")
	codec = uint64(1 + r.N(3))
	if w.p.cfg("rich") == 2 {
		if codec = uint64(2 + r.N(2)); r.N(4) == 0 { // anything at all, that only its ends understand
			b := []byte(token(args, kwargs))
			args, kwargs = []any{b}, nil
			if ours, err := serializers.SerializePayload(0, args, nil); err != nil || string(ours) != string(b) {
				w.violate("C20", "payload-encoding", "the binary payload %x is encoded without a serializer as %x (%v)", b, ours, err)
			}
			return b, 0, nil
		}
	}
	kind := map[uint64]int{serializers.JSONSerializerID: serJSON, serializers.CBORSerializerID: serCBOR, serializers.MsgPackSerializerID: serMsgPack}[codec]
	list := []any{args, kwargs}
	if args == nil {
		list[0] = []any{}
	}
	if len(kwargs) == 0 {
		list = list[:1]
	}
	var ours []byte
	var err error
	w.check("C20")
	if crash := protect(func() { ours, err = serializers.SerializePayload(codec, args, kwargs) }); crash != "" || err != nil {
		w.violate("C20", "payload-refused", "the payload %s cannot be encoded with serializer %d: %v %s", norm(list), codec, err, crash)
	} else if v, err := foreignDecode(kind, ours); err != nil || norm(v) != norm(list) {
		w.violate("C20", "payload-encoding", "the payload %s is encoded with serializer %d as %s, which is %s (%v)", norm(list), codec, hexOf(ours), norm(v), err)
	}
	if kind == serCBOR { // the same payload as the older functions carry it
		if crash := protect(func() { ours, err = serializers.EncodeCBOR(args, kwargs) }); crash != "" || err != nil {
			w.violate("C20", "payload-refused", "EncodeCBOR refuses the payload %s: %v %s", norm(list), err, crash)
		} else {
			v, err := foreignDecode(serCBOR, ours)
			l, _ := v.([]any)
			if err != nil || len(l) != 2 || normPayload(listOf(l[0]), dictOf(l[1])) != normPayload(args, kwargs) {
				w.violate("C20", "payload-encoding", "EncodeCBOR encodes the payload %s as %s, which is %s (%v)", norm(list), hexOf(ours), norm(v), err)
			}
		}
		theirs := foreignEncode(serCBOR, plainString([]any{args, kwargs}), &r)
		a, k, err := serializers.DecodeCBOR(theirs)
		if err != nil || normPayload(a, k) != normPayload(args, kwargs) {
			w.violate("C20", "payload-decoding", "DecodeCBOR decodes the payload %s, encoded as %s, as %s (%v)", norm(list), hexOf(theirs), normPayload(a, k), err)
		}
	}
	if len(list) == 1 && r.N(3) == 0 {
		list = append(list, map[string]any{})
	}
	return foreignEncode(kind, plainString(list), &r), codec, nil
}

func (w *world) newCall(c *client, req uint64, opts map[string]any, uri string, args []any, kwargs map[string]any, step int) messages.Message {
	if c.ser == serStatic {
		payload, codec, decode := w.encoded(step, args, kwargs)
		m := messages.NewCallBinary(req, opts, uri, payload, codec)
		opts["x_payload_serializer"] = codec
		w.carries("NewCallBinary", func() string {
			return norm([]any{m.Type(), m.RequestID(), m.Options(), m.Procedure(), m.PayloadIsBinary(), m.Payload(), m.PayloadSerializer(), len(m.Args()), len(m.KwArgs())})
		}, norm([]any{48, req, opts, uri, true, payload, codec, 0, 0}))
		if w.p.cfg("opaque") == 1 && req%3 > 0 {
			return m
		}
		return messages.NewCallWithFields(&binaryCall{req, opts, uri, payload, codec, decode})
	}
	return messages.NewCall(req, opts, uri, args, kwargs)
}

// carries checks that a message with a binary payload, made the way a client makes it, says what it was made of.
func (w *world) carries(what string, say func() string, want string) {
	w.check("C20")
	var got string
	if crash := protect(func() { got = say() }); crash != "" {
		w.violate("C20", "binary-message", "what %s makes of %s cannot be read: %s", what, want, crash)
	} else if got != want {
		w.violate("C20", "binary-message", "what %s makes of %s is %s", what, want, got)
	}
}

// payload makes the arguments of one message: the token that identifies it,
// then anything. The values survive every serializer unchanged in meaning.
func (w *world) payload(step int, tok string, c *client) ([]any, map[string]any) {
	r := w.rand(step, "payload")
	if q := w.rand(step, "nopayload"); tok[0] != 'k' && (c == nil || c.ser != serStatic) && q.N(6) == 0 {
		// nothing to say: only an invocation has to name its call.
		switch q.N(6) {
		case 0:
			return nil, nil
		case 1:
			return []any{}, nil
		case 2:
			return []any{}, map[string]any{}
		case 3:
			return nil, map[string]any{"only": q.N(9)}
		case 4:
			return []any{nil}, nil
		}
		return []any{[]any{}}, map[string]any{"": map[string]any{}}
	}
	switch r.N(8) {
	case 0:
		return []any{tok}, nil
	case 1:
		return nil, map[string]any{"tok": tok, "n": r.N(1000)}
	case 2:
		return []any{tok, nil, true, false, ""}, map[string]any{"": nil, "ключ": "значение"}
	}
	args := []any{tok}
	rich := w.p.cfg("rich") // 1: what every serializer can express; 2: JSON is not there
	kind := serJSON
	if rich == 2 {
		kind = serCBOR
	}
	if rich > 0 && r.N(2) == 0 {
		for i := r.N(4); i > 0; i-- {
			v := richValue(&r, kind, 2)
			if r.N(20) == 0 {
				v = bulk(&r, v)
			}
			args = append(args, noSingles(v))
		}
		if r.N(2) == 0 {
			return args, nil
		}
		d, _ := noSingles(richDict(&r, kind, 2)).(map[string]any)
		return args, d
	}
	for i := r.N(4); i > 0; i-- {
		args = append(args, w.value(&r, 2))
	}
	if r.N(40) == 0 { // around the numbers at which encodings change their form
		for i := []int{5, 8, 15, 16, 17, 23, 24, 31, 32, 64, 128, 255, 256, 300}[r.N(14)] - len(args); i > 0; i-- {
			args = append(args, i)
		}
	}
	if r.N(2) == 0 {
		return args, nil
	}
	kwargs := map[string]any{}
	if r.N(40) == 0 {
		for i := []int{5, 8, 15, 16, 17, 23, 24, 31, 32, 64, 128, 255, 256, 300}[r.N(14)]; i > 0; i-- {
			kwargs[fmt.Sprintf("n%d", i)] = i
		}
	}
	for i := r.N(3); i > 0; i-- {
		kwargs[fmt.Sprintf("k%d", r.N(100))] = w.value(&r, 2)
	}
	return args, kwargs
}

// noSingles replaces numbers that a peer may send in single precision and that
// are then written in JSON with the digits of single precision: whether that is
// the same number is not decided here.
func noSingles(v any) any {
	switch x := v.(type) {
	case float64:
		if float64(float32(x)) == x && strconv.FormatFloat(x, 'g', -1, 32) != strconv.FormatFloat(x, 'g', -1, 64) {
			return 0.25
		}
	case []any:
		for i := range x {
			x[i] = noSingles(x[i])
		}
	case map[string]any:
		for k, e := range x {
			x[k] = noSingles(e)
		}
	}
	return v
}

// contentProps are the properties that say what a message of the router contains.
func contentProps(m messages.Message) []string {
	switch m.(type) {
	case *messages.Invocation:
		return []string{"C01", "C06", "C10", "C20"}
	case *messages.Result, *messages.Error:
		return []string{"C01", "C02", "C20"}
	case *messages.Event:
		return []string{"C07", "C09", "C10", "C20"}
	}
	return []string{"C20", "C26"}
}

// options adds what means nothing to the router, as any client may.
func (w *world) options(s Step, opts map[string]any) map[string]any {
	r := w.rand(s.I, "options")
	if r.N(6) > 0 {
		return opts
	}
	for i := 1 + r.N(3); i > 0; i-- {
		if r.N(3) == 0 { // of a type that the option does not have
			k := []string{"exclude_me", "acknowledge", "progress", "receive_progress", "match", "invoke"}[r.N(6)]
			if _, set := opts[k]; !set {
				opts[k] = []any{nil, 0, 1, "true", "false", []any{}, map[string]any{}}[r.N(7)]
				if k == "match" && r.N(2) == 0 {
					opts[k] = []any{"", "EXACT", "fuzzy"}[r.N(3)]
				} else if s, ok := opts[k].(string); k == "invoke" && ok {
					opts[k] = len(s)
				}
			}
			continue
		}
		opts[[]string{"x_trace", "timeout", "disclose_me", "x_", "ttl", "caller", "publisher", "caller_authid", "topic", "procedure"}[r.N(10)]] = w.value(&r, 1)
	}
	return opts
}

func (w *world) value(r *rt.PRNG, depth int) any {
	n := 8
	if depth <= 0 {
		n = 6
	}
	switch r.N(n) {
	case 0:
		return int64(r.N(1 << 20))
	case 1:
		return -int64(r.N(1<<30)) - 1
	case 2:
		return strings.Repeat("é", r.N(5)) + fmt.Sprint(r.N(1000))
	case 3:
		return r.N(2) == 0
	case 4:
		return nil
	case 5:
		return float64(r.N(1000)) + 0.5
	case 6:
		list := []any{}
		for i := r.N(3); i > 0; i-- {
			list = append(list, w.value(r, depth-1))
		}
		return list
	}
	m := map[string]any{}
	for i := r.N(3); i > 0; i-- {
		m[fmt.Sprintf("m%d", r.N(10))] = w.value(r, depth-1)
	}
	return m
}

// ---------------------------------------------------------------- links

func (w *world) latency(step int, purpose string, c *client) int64 {
	if w.maxLat <= 0 {
		return 0
	}
	r := w.rand(step, purpose)
	return int64(r.N(w.maxLat)) * c.slow
}

// send puts a message of client c on its way to the router. tok names the call
// it starts, or is "leave" for the end of the connection.
func (w *world) send(c *client, s Step, msg messages.Message, tok string) {
	w.seq++
	at := w.now + w.latency(s.I*31+int(c.req%31), "up"+tok, c)
	if at < c.upAt {
		at = c.upAt
	}
	c.upAt = at
	gen := c.gen
	if msg == nil {
		w.at(at, func() {
			if c.gen == gen {
				w.detach(c)
			}
		})
		return
	}
	if c.session != nil {
		w.sendBytes(c, s, msg, at, tok)
		return
	}
	w.expectReply(c, s, msg, tok)
	w.at(at, func() {
		if c.gen == gen && !c.upDead {
			w.route(c.sess, msg)
		}
	})
}

func (w *world) expectReply(c *client, s Step, msg messages.Message, tok string) {
	switch m := msg.(type) {
	case *messages.Call:
		if _, sent := c.open[tok]; !sent {
			c.open[tok] = m.RequestID()
			c.outs[m.RequestID()] = &outReq{kind: "call", tok: tok, step: s.I, at: w.now}
		}
	case *messages.Register:
		c.outs[m.RequestID()] = &outReq{kind: "register", step: s.I, at: w.now}
	case *messages.Subscribe:
		c.outs[m.RequestID()] = &outReq{kind: "subscribe", step: s.I, at: w.now}
	case *messages.Unregister:
		// a request that the router refuses is struck off when it does.
		c.outs[m.RequestID()] = &outReq{kind: "unregister", step: s.I, at: w.now}
		c.regs = removeID(c.regs, m.RegistrationID())
	case *messages.Unsubscribe:
		// a request that the router refuses is struck off when it does.
		c.outs[m.RequestID()] = &outReq{kind: "unsubscribe", step: s.I, at: w.now}
		c.subs = removeID(c.subs, m.SubscriptionID())
	case *messages.Publish:
		if ack, _ := m.Options()["acknowledge"].(bool); ack {
			c.outs[m.RequestID()] = &outReq{kind: "publish", step: s.I, at: w.now}
		}
	}
}

// sendBytes is send over the real stack: session, serializer, framing; the
// stream arrives in arbitrary pieces.
func (w *world) sendBytes(c *client, s Step, msg messages.Message, at int64, tok string) {
	var data []byte
	var err error
	want := canonical(msg)
	if c.foreign {
		r := w.rand(s.I*31+int(c.req%31), "foreign")
		v, _ := plainString(trimmed(specList(msg), &r)).([]any)
		data = foreignEncode(c.ser, v, &r)
	} else if crash := protect(func() { data, err = c.session.SendMessage(msg) }); crash != "" {
		w.violate(w.prop, "crash", "client session crashed sending %s: %s", want, crash)
		return
	}
	if err != nil {
		w.event(fmt.Sprintf("client %d could not send %s", c.slot, want))
		if _, ok := msg.(*messages.Unsubscribe); !ok {
			w.violate("C20", "send-refused", "client session refused to send %s: %v", want, err)
		}
		return
	}
	w.expectReply(c, s, msg, tok)
	frame := frameOf(data)
	gen := c.gen
	w.segments(s.I*31+int(c.req%31), "upseg", frame, at, func(t int64) {
		if t > c.upAt {
			c.upAt = t
		}
	}, func(piece []byte) {
		if c.gen != gen || c.upDead {
			return
		}
		c.upBuf = append(c.upBuf, piece...)
		for c.gen == gen {
			body, ok := w.takeFrame(&c.upBuf)
			if !ok {
				return
			}
			var m messages.Message
			var err error
			if crash := protect(func() { m, err = serializerOf(c.ser).Deserialize(body) }); crash != "" {
				w.violate(w.prop, "crash", "router crashed decoding a frame of client %d: %s", c.slot, crash)
				return
			}
			if err != nil {
				w.violate("C20", "frame-refused", "router cannot decode what a client sent (%s): %v", want, err)
				return
			}
			w.check("C20")
			if got := canonical(m); normList(specList(m)) != normList(specList(msg)) {
				w.violate("C20", "altered", "client %d sent %s, and the router receives %s", c.slot, want, got)
			}
			w.route(c.sess, m)
		}
	})
}

// frameOf is a header and what it announces; the bytes stay where they are while
// they wait to be sent.
func frameOf(data []byte) [][]byte {
	return [][]byte{transports.SendMessageHeader(transports.NewMessageHeader(transports.MessageWamp, len(data))), data}
}

// cutOf copies a piece of it.
func cutOf(frame [][]byte, from, to int) []byte {
	var piece []byte
	for _, part := range frame {
		if a, b := min(from, len(part)), min(to, len(part)); a < b {
			piece = append(piece, part[a:b]...)
		}
		from, to = max(0, from-len(part)), max(0, to-len(part))
	}
	return piece
}

// segments schedules the arrival of a frame in pieces.
func (w *world) segments(step int, purpose string, frame [][]byte, at int64, last func(int64), arrive func([]byte)) {
	r := w.rand(step, purpose)
	if w.p.cfg("seg") == 0 || r.N(3) == 0 {
		last(at)
		w.at(at, func() { arrive(cutOf(frame, 0, len(frame[0])+len(frame[1]))) })
		return
	}
	w.count("fault:segmented-delivery")
	t := at
	from, left := 0, len(frame[0])+len(frame[1])
	for left > 0 {
		n := 1 + r.N(1+left/(1+r.N(4)))
		if r.N(4) == 0 {
			n = 1 + r.N(4)
		}
		if n > left {
			n = left
		}
		a, b := from, from+n
		from, left = b, left-n
		tt := t
		w.at(tt, func() { arrive(cutOf(frame, a, b)) })
		t += int64(r.N(5))
	}
	last(t)
}

func (w *world) takeFrame(buf *[]byte) ([]byte, bool) {
	if len(*buf) < 4 {
		return nil, false
	}
	h, err := transports.ReceiveMessageHeader((*buf)[:4])
	if err != nil || h.Kind() != transports.MessageWamp {
		w.violate("C22", "bad-header", "header %x of a frame that the sender framed correctly is not understood: %v", (*buf)[:4], err)
		*buf = nil
		return nil, false
	}
	if len(*buf) < 4+h.Length() {
		return nil, false
	}
	body := append([]byte(nil), (*buf)[4:4+h.Length()]...)
	*buf = (*buf)[4+h.Length():]
	return body, true
}

// deliver puts a message of the router on its way to a session.
func (w *world) deliver(to uint64, msg messages.Message) {
	c := w.bySess[to]
	if c == nil {
		return
	}
	w.seq++
	at := w.now + w.latency(int(hashString(canonical(msg))&0xffffff), "down", c)
	if at < c.downAt {
		at = c.downAt
	}
	c.downAt = at
	gen := c.gen
	want := canonical(msg)
	if !w.wire || c.ser == serStatic {
		if c.ser != serStatic && hashString(want)%8 == 0 && !(w.p.cfg("rich") == 2 && c.ser == serJSON) {
			w.encodable(c, msg)
		}
		w.at(at, func() {
			if c.gen == gen && !c.stop {
				if got := canonical(msg); got != want { // it changed on the way, by what the router did later
					for _, p := range contentProps(msg) {
						w.violate(p, "changed-in-flight", "the router sent %s to session %d, and what arrives is %s", want, to, got)
					}
				}
				w.clientReceive(c, msg)
			}
		})
		return
	}
	var data []byte
	var err error
	if crash := protect(func() { data, err = serializerOf(c.ser).Serialize(msg) }); crash != "" {
		w.violate(w.prop, "crash", "router crashed encoding %s: %s", want, crash)
		return
	}
	if err != nil {
		w.violate("C20", "encode-refused", "router cannot encode %s for a client: %v", want, err)
		return
	}
	frame := frameOf(data)
	w.segments(int(hashString(want)&0xffffff), "downseg", frame, at, func(t int64) {
		if t > c.downAt {
			c.downAt = t
		}
	}, func(piece []byte) {
		if c.gen != gen || c.stop {
			return
		}
		c.downBuf = append(c.downBuf, piece...)
		for c.gen == gen && !c.stop {
			body, ok := w.takeFrame(&c.downBuf)
			if !ok {
				return
			}
			var m messages.Message
			var err error
			if c.foreign {
				v, err := foreignDecode(c.ser, body)
				list, ok := v.([]any)
				w.check("C20")
				if err != nil || !ok || normList(list) != normList(specList(msg)) {
					w.violate("C20", "altered", "the router sent %s, and client %d, of another implementation, reads %s from %s (%v)", want, c.slot, norm(v), hexOf(body), err)
					return
				}
				w.clientReceive(c, msg)
				continue
			}
			if crash := protect(func() { m, err = c.session.Receive(body) }); crash != "" {
				w.violate(w.prop, "crash", "client session crashed receiving %s: %s", want, crash)
				return
			}
			w.check("C20")
			w.check("C26")
			// each chunk that finds no procedure gets an error of its own, and
			// what follows the first is for a call that the client has given up.
			if e, ok := msg.(*messages.Error); ok && err != nil && c.prog[e.RequestID()] {
				continue
			}
			// a chunk that crosses with the callee's final answer.
			if iv, ok := msg.(*messages.Invocation); ok && err != nil && c.settled[iv.RequestID()] {
				continue
			}
			if r, ok := msg.(*messages.Result); ok && err != nil && c.prog[r.RequestID()] {
				continue
			}
			if err != nil {
				w.violate("C20", "receive-refused", "client %d refused %s: %v", c.slot, want, err)
				w.violate("C26", "receive-refused", "client %d refused %s: %v", c.slot, want, err)
				return
			}
			if got := canonical(m); got != want {
				w.violate("C20", "altered", "the router sent %s and client %d received %s", want, c.slot, got)
			}
			w.clientReceive(c, m)
		}
	})
}

// encodable: what the router hands out goes onto the wire as what it is.
func (w *world) encodable(c *client, msg messages.Message) {
	var data []byte
	var err error
	if crash := protect(func() { data, err = serializerOf(c.ser).Serialize(msg) }); crash != "" {
		w.violate(w.prop, "crash", "router crashed encoding %s: %s", canonical(msg), crash)
		return
	}
	var v any
	if err == nil {
		v, err = foreignDecode(c.ser, data)
	}
	list, ok := v.([]any)
	if err != nil || !ok || normList(list) != normList(specList(msg)) {
		for _, p := range contentProps(msg) {
			w.violate(p, "not-encodable", "the router's %s for client %d goes out as %s (%v)", normList(specList(msg)), c.slot, norm(v), err)
		}
	}
}

// ---------------------------------------------------------------- client reactions

func token(args []any, kwargs map[string]any) string {
	if len(args) > 0 {
		if s, ok := args[0].(string); ok {
			return s
		}
		if b, ok := args[0].([]byte); ok {
			return string(b)
		}
	}
	if s, ok := kwargs["tok"].(string); ok {
		return s
	}
	return ""
}

// invocationPayload is the payload of an invocation whether or not it stayed encoded.
func payloadOf(b messages.BinaryPayload, args func() []any, kwargs func() map[string]any) ([]any, map[string]any, error) {
	if b.PayloadIsBinary() {
		return serializers.DeserializePayload(b.PayloadSerializer(), b.Payload())
	}
	return args(), kwargs(), nil
}

func (w *world) clientReceive(c *client, msg messages.Message) {
	switch m := msg.(type) {
	case *messages.Registered:
		w.replied(c, m.RequestID(), "register")
		c.regs = appendOnce(c.regs, m.RegistrationID())
	case *messages.Unregistered:
		w.replied(c, m.RequestID(), "unregister")
	case *messages.Subscribed:
		w.replied(c, m.RequestID(), "subscribe")
		c.subs = appendOnce(c.subs, m.SubscriptionID())
	case *messages.Unsubscribed:
		w.replied(c, m.RequestID(), "unsubscribe")
	case *messages.Published:
		w.replied(c, m.RequestID(), "publish")
	case *messages.Result:
		if p, _ := m.Details()["progress"].(bool); !p {
			w.replied(c, m.RequestID(), "call")
		}
	case *messages.Error:
		switch m.MessageType() {
		case messages.MessageTypeCall:
			w.replied(c, m.RequestID(), "call")
		case messages.MessageTypeRegister:
			w.replied(c, m.RequestID(), "register")
		}
	case *messages.Invocation:
		w.invoked(c, m)
	}
}

func appendOnce(ids []uint64, id uint64) []uint64 {
	for _, x := range ids {
		if x == id {
			return ids
		}
	}
	return append(ids, id)
}

func (w *world) replied(c *client, req uint64, kind string) {
	o := c.outs[req]
	w.check("C26")
	if kind == "call" && c.prog[req] {
		delete(c.outs, req)
		return
	}
	if o == nil || o.kind != kind {
		w.violate("C26", "unexpected-reply", "client %d got a reply for %s request %d, which it does not wait for", c.slot, kind, req)
		return
	}
	delete(c.outs, req)
}

// invoked is the callee's application code: it answers as the call's plan says.
func (w *world) invoked(c *client, m *messages.Invocation) {
	c.invs = append(c.invs, m.RequestID())
	args, kwargs, err := payloadOf(m, m.Args, m.KwArgs)
	if err != nil {
		w.violate("C01", "payload", "the payload of invocation %d does not decode: %v", m.RequestID(), err)
		w.violate("C20", "payload", "the payload of invocation %d does not decode: %v", m.RequestID(), err)
		return
	}
	tok := token(args, kwargs)
	base, chunk, isChunk := strings.Cut(tok, "#")
	b, ok := w.beh[base]
	if !ok {
		return
	}
	if isChunk {
		i, n := 0, 0
		fmt.Sscanf(chunk, "%d/%d", &i, &n)
		early := b.kind >= 8
		if early && i != 0 || !early && i != n {
			return // answers on the first or the last chunk
		}
	}
	w.answer(c, m.RequestID(), b, b.kind%8)
}

func (w *world) answer(c *client, id uint64, b behaviour, kind int) {
	gen := c.gen
	t := w.now + b.delay
	reply := 0
	yield := func(progress bool, d int64) {
		k := reply
		reply++
		w.at(t+d, func() {
			if !c.live || c.gen != gen {
				return
			}
			if !progress {
				c.settled[id] = true
			}
			w.sendYield(c, id, b.step, k, progress)
		})
	}
	fail := func(d int64) {
		k := reply
		reply++
		w.at(t+d, func() {
			if !c.live || c.gen != gen {
				return
			}
			c.settled[id] = true
			args, kwargs := w.payload(b.step*8+k, fmt.Sprintf("e%d.%d", b.step, k), c)
			w.send(c, Step{I: b.step*8 + k}, w.newError(id, b.step*8+k, fmt.Sprintf("com.err.e%d", b.step), args, kwargs), "")
		})
	}
	switch kind {
	case 0: // one result
		yield(false, 0)
	case 1: // an error
		fail(0)
	case 2: // never
		w.count("callee-silent")
	case 3: // the same result twice
		w.count("fault:duplicate-reply")
		yield(false, 0)
		yield(false, 3)
	case 4: // progress, then the result
		for i := 0; i < b.n; i++ {
			yield(true, int64(i))
		}
		yield(false, int64(b.n))
	case 5: // progress, then an error
		for i := 0; i < b.n; i++ {
			yield(true, int64(i))
		}
		fail(int64(b.n))
	case 6: // a result, then an error and progress
		w.count("fault:reply-after-settlement")
		yield(false, 0)
		fail(2)
		yield(true, 4)
	case 7: // an error, then a result
		w.count("fault:reply-after-settlement")
		fail(0)
		yield(false, 2)
	}
}

// newError is what a callee makes of a failure: details and URIs of all kinds.
func (w *world) newError(id uint64, step int, uri string, args []any, kwargs map[string]any) messages.Message {
	r := w.rand(step, "error")
	details := map[string]any{"d": step % 8}
	switch r.N(6) {
	case 0:
		details = map[string]any{}
	case 1:
		details = map[string]any{"message": "no\nway", "progress": true, "procedure": "a.b", "ppt_scheme": nil, "caller": 7}
	case 2:
		if w.p.cfg("rich") > 0 {
			kind := serJSON
			if w.p.cfg("rich") == 2 {
				kind = serCBOR
			}
			if d, ok := noSingles(richDict(&r, kind, 2)).(map[string]any); ok && d != nil {
				details = d
			}
		}
	}
	switch r.N(8) {
	case 0:
		uri = "wamp.error.invalid_argument"
	case 1:
		uri = "wamp.error.no_such_procedure"
	case 2:
		uri = "wamp.error.canceled"
	}
	return messages.NewError(messages.MessageTypeInvocation, id, details, uri, args, kwargs)
}

func (w *world) sendYield(c *client, id uint64, step, k int, progress bool) {
	opts := map[string]any{}
	if progress {
		opts["progress"] = true
	} else if k%2 == 1 {
		opts["progress"] = false
	}
	opts = w.options(Step{I: step*8 + k}, opts)
	args, kwargs := w.payload(step*8+k, fmt.Sprintf("r%d.%d", step, k), c)
	if c.ser == serStatic {
		payload, codec, decode := w.encoded(step*8+k, args, kwargs)
		m := messages.NewYieldBinary(id, opts, payload, codec)
		opts["x_payload_serializer"] = codec
		w.carries("NewYieldBinary", func() string {
			return norm([]any{m.Type(), m.RequestID(), m.Options(), m.PayloadIsBinary(), m.Payload(), m.PayloadSerializer(), len(m.Args()), len(m.KwArgs())})
		}, norm([]any{70, id, opts, true, payload, codec, 0, 0}))
		if w.p.cfg("opaque") == 1 && (step+k)%3 > 0 {
			w.send(c, Step{I: step*8 + k}, m, "")
			return
		}
		w.send(c, Step{I: step*8 + k}, messages.NewYieldWithFields(&binaryYield{id, opts, payload, codec, decode}), "")
		return
	}
	w.send(c, Step{I: step*8 + k}, messages.NewYield(id, opts, args, kwargs), "")
}

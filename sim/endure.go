package main

import (
	"fmt"
	"math"
	"runtime"
	"strings"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
	rt "github.com/xconnio/wampproto-go/zzsimrt"
)

// The endurance engine: a cycle of sessions, requests, handshakes and messages,
// with crashes in the middle of anything, is repeated hundreds of times against
// one router, one client session, one set of authenticators and serializers.
// At the end of each cycle everything in it is over, so what these hold on to
// must not depend on how many cycles there were.

type endureSim struct {
	*ctx
	p      *Plan
	dealer *wampproto.Dealer
	broker *wampproto.Broker
	sess   [3]*wampproto.Session
	sers   [3]serializers.Serializer
	stay   []*endSession // sessions that stay attached all the time
	next   uint64        // request id of the client sessions
	nextID uint64
	cycle  int
	pool   map[int]auth.ClientAuthenticator
}

type endSession struct {
	id       uint64
	attached bool
	transit  bool
	req      uint64
	regs     []uint64
	subs     []uint64
	invs     []uint64 // invocations it has to answer
	chunks   []endCall
}

type endCall struct {
	req  uint64
	uri  string
	done bool
}

// heapInUse is what is reachable when nothing goes on, as far as it differs
// from before by more than the limit: goroutines may need a while to end.
func heapInUse(before, limit int64) int64 {
	least := int64(math.MaxInt64)
	for i := 0; i < 6; i++ {
		runtime.GC()
		rt.Purge()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		least = min(least, int64(m.HeapAlloc))
		if least-before < limit {
			break
		}
		time.Sleep(time.Duration(i) * time.Millisecond)
	}
	return least
}

func runEndure(p *Plan, trace bool) *Result {
	e := &endureSim{ctx: newCtx(p.Prop, trace), p: p, pool: map[int]auth.ClientAuthenticator{}}
	rt.SeedRand(rt.Mix(p.Seed, 1))
	rt.SeedMaps(rt.Mix(p.Seed, 2))
	rt.SeedEntropy(rt.Mix(p.Seed, 3))
	rt.SetClock(1_700_000_000_000_000_000, nil)
	rt.SingleTask(true)
	defer func() { rt.Entropy = nil; rt.SingleTask(false) }()
	e.dealer, e.broker = wampproto.NewDealer(), wampproto.NewBroker()
	for i := range e.sess {
		e.sers[i] = serializerOf(i)
		e.sess[i] = wampproto.NewSession(serializerOf(i))
	}
	e.nextID = 1 << 20
	for i := 0; i < p.cfg("stay"); i++ {
		s := &endSession{id: uint64(1000 + i)}
		e.attach(s)
		e.stay = append(e.stay, s)
	}
	begun := rt.MapVisits
	slow := func() bool { return rt.MapVisits-begun > 10_000_000 }
	repeat := func(n int) int {
		for i := 0; i < n; i++ {
			e.cycle++
			if crash := protect(e.oneCycle); crash != "" {
				// crashes are other properties' business; what is left behind is not over then.
				e.log("cycle %d: %s", e.cycle, crash)
				e.count("other:crash")
				return -1
			}
			if i >= 100 && slow() {
				return i + 1
			}
		}
		return n
	}
	n := p.cfg("cycles")
	e.check(p.Prop)
	if repeat(n/4) < 0 {
		return e.done()
	}
	// the heap has to grow with every repetition: what is kept for good once, or
	// up to some number of entries, is no growth.
	before := heapInUse(0, 0)
	for round := 0; ; round++ {
		k := repeat(n)
		if k < 0 {
			break
		}
		limit := int64(k) * 12
		e.res.Stats["cycles"] += int64(k)
		now := heapInUse(before, limit)
		e.log("%d cycles: more than %d bytes left behind: %v", k, limit, now-before >= limit)
		if now-before < limit {
			break
		}
		// what piles up may make every cycle slower than the one before.
		if round == 4 || round > 1 && slow() {
			e.violate(p.Prop, "grows", "everything that was begun is over, and yet each repetition of these steps leaves more than %d bytes behind", 12)
			break
		}
		before = now
		n += n / 2
		if round == 3 {
			n *= 2
		}
	}
	runtime.KeepAlive(e)
	return e.done()
}

func (e *endureSim) attach(s *endSession) {
	det := wampproto.NewSessionDetails(s.id, "realm1", fmt.Sprintf("user%d", s.id), "role", "ticket", s.id%3 == 0, nil, nil)
	e1, e2 := e.dealer.AddSession(det), e.broker.AddSession(det)
	s.attached = e1 == nil && e2 == nil
	s.transit = true
}

func (e *endureSim) oneCycle() {
	rt.SetClock(1_700_000_000_000_000_000+int64(e.cycle)*1_000_000, nil)
	var all []*endSession
	all = append(all, e.stay...)
	for i := 0; i < e.p.cfg("come"); i++ {
		s := &endSession{}
		if e.p.cfg("reuse") == 1 {
			s.id = uint64(2000 + i)
		} else {
			e.nextID++
			s.id = e.nextID
		}
		all = append(all, s)
	}
	for _, s := range e.p.Steps {
		e.step(s, all)
	}
	// all comes to an end.
	for round := 0; round < 3; round++ {
		for _, s := range all {
			if !s.attached {
				continue
			}
			for len(s.chunks) > 0 {
				c := s.chunks[0]
				s.chunks = s.chunks[1:]
				e.route(all, s.id, messages.NewCall(c.req, map[string]any{}, c.uri, nil, nil))
			}
			for len(s.invs) > 0 {
				id := s.invs[0]
				s.invs = s.invs[1:]
				e.route(all, s.id, messages.NewYield(id, nil, nil, nil))
			}
		}
	}
	for i, s := range all {
		if !s.attached {
			continue
		}
		if i >= len(e.stay) {
			e.leave(s)
			continue
		}
		for _, id := range s.regs {
			s.req++
			e.route(all, s.id, messages.NewUnregister(s.req, id))
		}
		for _, id := range s.subs {
			s.req++
			e.route(all, s.id, messages.NewUnsubscribe(s.req, id))
		}
		s.regs, s.subs = s.regs[:0], s.subs[:0]
		// what was handed on after the last answers went out
		s.invs = s.invs[:0]
	}
}

func (e *endureSim) leave(s *endSession) {
	if s.attached {
		e.dealer.RemoveSession(s.id)
		e.broker.RemoveSession(s.id)
		s.attached = false
	}
}

func find(all []*endSession, id uint64) *endSession {
	for _, s := range all {
		if s.id == id {
			return s
		}
	}
	return nil
}

// route hands a message to the router and keeps what the recipients have to answer.
func (e *endureSim) route(all []*endSession, from uint64, msg messages.Message) {
	switch msg.Type() {
	case messages.MessageTypeSubscribe, messages.MessageTypeUnsubscribe:
		out, _ := e.broker.ReceiveMessage(from, msg)
		e.deliver(all, out)
	case messages.MessageTypePublish:
		pub, err := e.broker.ReceivePublish(from, msg.(*messages.Publish))
		if err == nil && e.cycle < 3 {
			e.event(fmt.Sprintf("publish to %d, ack %v", len(pub.Recipients), pub.Ack != nil))
		}
	default:
		out, _ := e.dealer.ReceiveMessage(from, msg)
		e.deliver(all, out)
	}
}

func (e *endureSim) deliver(all []*endSession, out *wampproto.MessageWithRecipient) {
	if out == nil || out.Message == nil {
		return
	}
	if e.cycle < 3 {
		e.event(fmt.Sprintf("%d gets %s", out.Recipient, typeName(out.Message)))
	}
	s := find(all, out.Recipient)
	if s == nil {
		return
	}
	switch m := out.Message.(type) {
	case *messages.Registered:
		s.regs = append(s.regs, m.RegistrationID())
	case *messages.Subscribed:
		s.subs = append(s.subs, m.SubscriptionID())
	case *messages.Invocation:
		for _, id := range s.invs {
			if id == m.RequestID() {
				return
			}
		}
		s.invs = append(s.invs, m.RequestID())
	}
}

func (e *endureSim) uri(s Step) string {
	u := []string{"a", "a.b", "a.b.c", "com.x.proc"}[abs(s.A)%4]
	if s.F&1 == 1 {
		u += fmt.Sprintf(".n%d", e.cycle)
	}
	return u
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

func pickOne[T any](list []T, i int) (v T, ok bool) {
	if len(list) == 0 {
		return v, false
	}
	return list[abs(i)%len(list)], true
}

func (e *endureSim) step(st Step, all []*endSession) {
	if strings.HasPrefix(st.Op, "c.") {
		e.clientStep(st)
		return
	}
	switch st.Op {
	case "handshake":
		e.handshake(st)
		return
	case "codec":
		e.codec(st)
		return
	}
	if len(all) == 0 {
		return
	}
	s := all[abs(st.C)%len(all)]
	if !s.attached && !s.transit {
		e.attach(s)
	}
	args := []any{st.A, fmt.Sprintf("v%d", e.cycle)}
	var kwargs map[string]any
	if st.F&2 == 2 {
		kwargs = map[string]any{fmt.Sprintf("k%d", e.cycle): true}
	}
	match := []string{"", "prefix", "wildcard"}[abs(st.B)%3]
	u := e.uri(st)
	s.req++
	switch st.Op {
	case "register":
		o := map[string]any{}
		pat := u
		if match != "" {
			o["match"] = match
		}
		if match == "wildcard" {
			pat += ".*"
		}
		if st.D > 0 {
			o["invoke"] = []string{"single", "first", "last", "roundrobin", "random"}[st.D%5]
		}
		e.route(all, s.id, messages.NewRegister(s.req, o, pat))
	case "subscribe":
		o := map[string]any{}
		pat := u
		if match != "" {
			o["match"] = match
		}
		if match == "wildcard" {
			pat += ".*"
		}
		e.route(all, s.id, messages.NewSubscribe(s.req, o, pat))
	case "call":
		if st.B%2 == 1 {
			u += ".c"
		}
		o := map[string]any{}
		if st.D&1 == 1 {
			o["progress"] = true
		}
		if st.D&2 == 2 {
			o["receive_progress"] = true
		}
		if s.attached && st.D&1 == 1 {
			s.chunks = append(s.chunks, endCall{req: s.req, uri: u})
		}
		e.route(all, s.id, messages.NewCall(s.req, o, u, args, kwargs))
	case "chunk":
		if c, ok := pickOne(s.chunks, st.A); ok {
			e.route(all, s.id, messages.NewCall(c.req, map[string]any{"progress": true}, c.uri, args, kwargs))
		}
	case "last-chunk":
		if len(s.chunks) > 0 {
			c := s.chunks[0]
			s.chunks = s.chunks[1:]
			e.route(all, s.id, messages.NewCall(c.req, map[string]any{}, c.uri, args, kwargs))
		}
	case "yield", "raise":
		if len(s.invs) == 0 {
			break
		}
		i := abs(st.A) % len(s.invs)
		id := s.invs[i]
		if st.Op == "yield" && st.D&1 == 1 {
			// a progressive result to a caller that did not ask for it is the final one.
			e.route(all, s.id, messages.NewYield(id, map[string]any{"progress": true}, args, kwargs))
			break
		}
		s.invs = append(s.invs[:i:i], s.invs[i+1:]...)
		if st.Op == "yield" {
			e.route(all, s.id, messages.NewYield(id, map[string]any{}, args, kwargs))
		} else {
			e.route(all, s.id, messages.NewError(messages.MessageTypeInvocation, id, map[string]any{}, "com.err."+u, args, kwargs))
		}
	case "publish":
		o := map[string]any{}
		if st.D&1 == 1 {
			o["acknowledge"] = true
		}
		if st.D&2 == 2 {
			o["exclude_me"] = false
		}
		if st.B%2 == 1 {
			u += ".c"
		}
		e.route(all, s.id, messages.NewPublish(s.req, o, u, args, kwargs))
	case "unregister":
		if id, ok := pickOne(s.regs, st.A); ok {
			e.route(all, s.id, messages.NewUnregister(s.req, id))
		}
	case "unsubscribe":
		if id, ok := pickOne(s.subs, st.A); ok {
			e.route(all, s.id, messages.NewUnsubscribe(s.req, id))
		}
	case "leave":
		if abs(st.C)%len(all) >= len(e.stay) {
			e.leave(s)
			e.count("fault:crash-in-mid-cycle")
		}
	case "again": // attaches a second time, or after it left
		if s.attached {
			e.attachAgain(s)
		} else {
			s.regs, s.subs, s.invs, s.chunks = nil, nil, nil, nil
			e.attach(s)
		}
	case "disclose":
		e.dealer.AutoDiscloseCaller(st.D&1 == 1)
		e.broker.AutoDisclosePublisher(st.D&1 == 1)
	case "ask":
		e.dealer.HasProcedure(u)
		e.broker.HasSubscription(u)
	case "senseless":
		id := uint64(1_000_000_000 + e.cycle*10)
		switch st.D % 6 {
		case 0:
			e.route(all, s.id, messages.NewYield(id, nil, args, kwargs))
		case 1:
			e.route(all, s.id, messages.NewUnregister(s.req, id))
		case 2:
			e.route(all, s.id, messages.NewUnsubscribe(s.req, id))
		case 3:
			e.route(all, id, messages.NewCall(s.req, nil, u, args, kwargs))
		case 4:
			e.route(all, id, messages.NewRegister(s.req, nil, u))
			e.route(all, id, messages.NewSubscribe(s.req, nil, u))
		case 5:
			e.dealer.RemoveSession(id)
			e.broker.RemoveSession(id)
		}
		e.count("fault:senseless-message")
	}
}

func (e *endureSim) attachAgain(s *endSession) {
	det := wampproto.NewSessionDetails(s.id, "realm1", fmt.Sprintf("other%d", e.cycle), "role", "ticket", false, nil, nil)
	_, _ = e.dealer.AddSession(det), e.broker.AddSession(det)
}

// ---------------------------------------------------------------- client session

// clientStep is one exchange of a client session from the request to its last answer.
func (e *endureSim) clientStep(st Step) {
	w := e.sess[abs(st.C)%3]
	e.next++
	id := e.next
	if st.F&4 == 4 {
		id += 1 << 40
	}
	args := []any{st.A, fmt.Sprintf("v%d", e.cycle)}
	send := func(m messages.Message) bool {
		_, err := w.SendMessage(m)
		return err == nil
	}
	recv := func(m messages.Message) bool {
		if st.F&8 == 8 {
			data, err := e.sers[abs(st.C)%3].Serialize(m)
			if err != nil {
				return false
			}
			_, err = w.Receive(data)
			return err == nil
		}
		_, err := w.ReceiveMessage(m)
		return err == nil
	}
	refuse := func(kind uint64) {
		recv(messages.NewError(kind, id, map[string]any{}, "wamp.error.x", nil, nil))
	}
	u := e.uri(st)
	bad := map[string]any{"f": func() {}}
	switch st.Op {
	case "c.call":
		if !send(messages.NewCall(id, map[string]any{"receive_progress": true}, u, args, nil)) {
			return
		}
		for k := 0; k < st.B%3; k++ {
			recv(messages.NewResult(id, map[string]any{"progress": true}, args, nil))
		}
		if st.D&1 == 1 {
			refuse(messages.MessageTypeCall)
		} else {
			recv(messages.NewResult(id, map[string]any{}, args, nil))
		}
	case "c.register":
		send(messages.NewRegister(id, map[string]any{}, u))
		if st.D&1 == 1 {
			refuse(messages.MessageTypeRegister)
			return
		}
		reg := id + 7
		recv(messages.NewRegistered(id, reg))
		for k := 0; k < st.B%4; k++ {
			inv := id*16 + uint64(k)
			for n := 0; n < 1+st.A%2; n++ {
				recv(messages.NewInvocation(inv, reg, map[string]any{}, args, nil))
			}
			if k%2 == 0 {
				send(messages.NewYield(inv, map[string]any{"progress": true}, args, nil))
			}
			if st.D&2 == 2 {
				send(messages.NewError(messages.MessageTypeInvocation, inv, map[string]any{}, "com.err", args, nil))
			} else {
				send(messages.NewYield(inv, map[string]any{}, args, nil))
			}
		}
		e.next++
		id = e.next
		if st.D&4 == 4 {
			send(messages.NewUnregister(id, reg))
			refuse(messages.MessageTypeUnregister)
			e.next++
			id = e.next
		}
		send(messages.NewUnregister(id, reg))
		recv(messages.NewUnregistered(id))
	case "c.subscribe":
		send(messages.NewSubscribe(id, map[string]any{}, u))
		if st.D&1 == 1 {
			refuse(messages.MessageTypeSubscribe)
			return
		}
		sub := id + 7
		recv(messages.NewSubscribed(id, sub))
		for k := 0; k < st.B%4; k++ {
			recv(messages.NewEvent(sub, id*16+uint64(k), map[string]any{}, args, nil))
		}
		e.next++
		id = e.next
		if st.D&4 == 4 {
			send(messages.NewUnsubscribe(id, sub))
			refuse(messages.MessageTypeUnsubscribe)
			e.next++
			id = e.next
		}
		send(messages.NewUnsubscribe(id, sub))
		recv(messages.NewUnsubscribed(id))
	case "c.publish":
		o := map[string]any{}
		if st.D&1 == 1 {
			o["acknowledge"] = true
		}
		send(messages.NewPublish(id, o, u, args, nil))
		if st.D&1 == 1 {
			if st.D&2 == 2 {
				refuse(messages.MessageTypePublish)
			} else {
				recv(messages.NewPublished(id, id*3))
			}
		}
	case "c.unencodable":
		switch st.D % 4 {
		case 0:
			send(messages.NewCall(id, map[string]any{}, u, nil, bad))
		case 1:
			send(messages.NewPublish(id, map[string]any{"acknowledge": true}, u, nil, bad))
		case 2:
			send(messages.NewSubscribe(id, bad, u))
		case 3:
			send(messages.NewRegister(id, bad, u))
		}
		e.count("fault:cannot-be-encoded")
	case "c.stray":
		switch st.D % 7 {
		case 0:
			recv(messages.NewResult(id, map[string]any{}, args, nil))
		case 1:
			recv(messages.NewRegistered(id, id))
		case 2:
			recv(messages.NewSubscribed(id, id))
		case 3:
			recv(messages.NewInvocation(id, id, map[string]any{}, args, nil))
		case 4:
			recv(messages.NewEvent(id, id, map[string]any{}, args, nil))
		case 5:
			recv(messages.NewUnregistered(id))
			recv(messages.NewUnsubscribed(id))
			recv(messages.NewPublished(id, id))
		case 6:
			send(messages.NewUnsubscribe(id, id))
			send(messages.NewHello("r", u, nil, nil, nil))
		}
		e.count("fault:stray-message")
	case "c.garbage":
		_, _ = w.Receive([]byte(fmt.Sprintf("[50,%d,{\"k%d\":", id, id)))
		_, _ = w.Receive([]byte{0x93, byte(id), byte(id >> 8), 0xff})
		e.count("fault:garbage")
	}
}

// ---------------------------------------------------------------- handshakes

// endDB is a user database for as many users as there are cycles.
type endDB struct{ wrong bool }

func (endDB) Methods() []auth.Method { return authMethods }
func (d endDB) Authenticate(req auth.Request) (auth.Response, error) {
	who := req.AuthID()
	secret := "secret"
	if d.wrong {
		secret = "another"
	}
	switch req.AuthMethod() {
	case auth.WAMPCRA:
		if len(who)%2 == 0 {
			return auth.NewCRAResponseSalted(who, "role", secret, "salt"+who, 2, 32, 0), nil
		}
		return auth.NewCRAResponse(who, "role", secret, 0), nil
	default:
		if d.wrong {
			return nil, fmt.Errorf("unknown user")
		}
	}
	return auth.NewResponse(who, "role", 0)
}

// handshake goes through a handshake, up to message number st.A.
func (e *endureSim) handshake(st Step) {
	who := "alice"
	if st.F&1 == 1 {
		who = fmt.Sprintf("user%d", e.cycle)
	}
	m := abs(st.B) % 4
	a := e.pool[m]
	if a == nil || st.F&1 == 1 {
		extra := map[string]any{"x": 1}
		switch m {
		case 0:
			a = auth.NewAnonymousAuthenticator(who, extra)
		case 1:
			a = auth.NewTicketAuthenticator(who, "ticket", extra)
		case 2:
			a = auth.NewWAMPCRAAuthenticator(who, "secret", extra)
		case 3:
			seed := strings.Repeat("07", 32)
			if st.F&1 == 1 {
				seed = fmt.Sprintf("%064x", e.cycle+1)
			}
			cs, err := auth.NewCryptoSignAuthenticator(who, seed, extra)
			if err != nil {
				return
			}
			a = cs
		}
		if st.F&1 == 0 {
			e.pool[m] = a
		}
	}
	ser := e.sers[abs(st.C)%3]
	j := wampproto.NewJoiner("realm1", ser, a)
	acc := wampproto.NewAcceptor(ser, endDB{wrong: st.D&1 == 1})
	data, err := j.SendHello()
	outcome := "cut"
	for i := 0; err == nil && i < abs(st.A)%6; i++ {
		var welcomed bool
		data, welcomed, err = acc.Receive(data)
		if err != nil {
			outcome = "refused"
			break
		}
		if st.D&2 == 2 && i == 1 {
			_, _, err = acc.Receive([]byte{byte(e.cycle), 1, 2})
			break
		}
		data, err = j.Receive(data)
		if welcomed {
			outcome = "welcomed"
			break
		}
	}
	if outcome == "cut" {
		e.count("fault:handshake-cut")
	}
	e.count("handshake-" + outcome)
	if e.cycle < 3 {
		e.event("handshake " + outcome)
	}
}

// ---------------------------------------------------------------- codecs

func (e *endureSim) codec(st Step) {
	ser := e.sers[abs(st.C)%3]
	tag := fmt.Sprintf("t%d", e.cycle)
	switch abs(st.B) % 6 {
	case 0, 1:
		m := messages.NewPublish(uint64(1+e.cycle), map[string]any{tag: true}, "a."+tag, []any{tag, e.cycle, 1.5}, map[string]any{tag: []any{tag}})
		data, err := ser.Serialize(m)
		if err != nil {
			return
		}
		if st.D&1 == 1 && len(data) > 3 {
			data = data[:len(data)-1-abs(st.A)%3]
			e.count("fault:torn-message")
		}
		_, _ = ser.Deserialize(data)
	case 2:
		b, err := serializers.SerializePayload(uint64(1+abs(st.A)%3), []any{tag}, map[string]any{tag: tag})
		if err == nil {
			_, _, _ = serializers.DeserializePayload(uint64(1+abs(st.A)%3), b)
		}
	case 3:
		b, err := transports.SendHandshake(transports.NewHandshake(transports.Serializer(1+abs(st.A)%3), 1<<(9+abs(st.D)%16)))
		if err == nil {
			_, _ = transports.ReceiveHandshake(b)
		}
		_, _ = transports.ReceiveMessageHeader(transports.SendMessageHeader(transports.NewMessageHeader(transports.MessageWamp, e.cycle)))
	case 4:
		wampproto.GenerateID()
		ch, err := auth.GenerateWAMPCRAChallenge(uint64(e.cycle), "user"+tag, "r", "p")
		if err == nil {
			key := auth.DeriveWAMPCRAKey("salt"+tag, "secret", 1, 32)
			auth.VerifyWAMPCRASignature(auth.SignWAMPCRAChallenge(ch, key), ch, key)
		}
		_, _ = auth.GenerateCryptoSignChallenge()
	case 5:
		_, _, _ = auth.GenerateCryptoSignKeyPair()
	}
}

// ---------------------------------------------------------------- generation

func genEndure(prop string, seed uint64, tier string) *Plan {
	r := rt.NewPRNG(rt.Mix(seed, 0xe4d))
	p := &Plan{Prop: prop, Engine: "endure", Seed: seed, Cfg: map[string]int{}}
	p.Cfg["cycles"] = 300
	if tier == "thorough" {
		p.Cfg["cycles"] = []int{300, 300, 1000}[r.N(3)]
	}
	p.Cfg["stay"] = r.N(3)
	p.Cfg["come"] = r.N(4)
	if p.Cfg["stay"]+p.Cfg["come"] == 0 {
		p.Cfg["come"] = 2
	}
	p.Cfg["reuse"] = r.N(2)
	routerOps := []string{"register", "register", "subscribe", "subscribe", "call", "call", "call", "chunk", "last-chunk", "yield", "yield", "raise",
		"publish", "publish", "unregister", "unsubscribe", "leave", "again", "disclose", "ask", "senseless"}
	clientOps := []string{"c.call", "c.call", "c.register", "c.register", "c.subscribe", "c.subscribe", "c.publish", "c.unencodable", "c.stray", "c.garbage"}
	theme := r.N(8) // 0-3 router, 4-5 client, 6 handshakes and codecs, 7 all
	uris := 1 + r.N(4)
	fresh := r.N(3)
	add := func(op string, c, a, b, d, f int) {
		p.Steps = append(p.Steps, Step{I: len(p.Steps), Op: op, C: c, A: a, B: b, D: d, F: f})
	}
	// exchanges that come to their end in order, among steps that do not.
	for k := r.N(4); k > 0 && (theme < 4 || theme == 7); k-- {
		c1, c2, a, f := r.N(6), r.N(6), r.N(uris), r.N(16)
		if r.N(2) == 0 {
			add("register", c1, a, r.N(3), r.N(5), f)
			for n := 1 + r.N(3); n > 0; n-- {
				add("call", c2, a, r.N(4), r.N(4), f)
				switch r.N(4) {
				case 0:
					add("chunk", c2, r.N(3), 0, 0, f)
					add("last-chunk", c2, 0, 0, 0, f)
				case 1:
					add("leave", []int{c1, c2}[r.N(2)], 0, 0, 0, f)
				case 2:
					add("yield", c1, r.N(3), 0, 1, f)
				}
				add([]string{"yield", "yield", "raise"}[r.N(3)], c1, r.N(3), 0, 0, f)
			}
			if r.N(2) == 0 {
				add("unregister", c1, 0, 0, 0, f)
			}
		} else {
			add("subscribe", c1, a, r.N(3), 0, f)
			for n := 1 + r.N(3); n > 0; n-- {
				add("publish", c2, a, r.N(4), r.N(4), f)
			}
			if r.N(2) == 0 {
				add("unsubscribe", c1, 0, 0, 0, f)
			}
		}
	}
	for k := 3 + r.N(14); k > 0; k-- {
		s := Step{I: len(p.Steps), C: r.N(6), A: r.N(uris), B: r.N(12), D: r.N(8), F: r.N(16)}
		t := theme
		if t == 7 {
			t = r.N(7)
		}
		switch {
		case t < 4:
			s.Op = routerOps[r.N(len(routerOps))]
			if fresh == 0 {
				s.F &^= 1
			} else if fresh == 1 {
				s.F |= 1
			}
			if r.N(2) == 0 {
				s.C = r.N(2)
			}
		case t < 6:
			s.Op = clientOps[r.N(len(clientOps))]
		default:
			s.Op = []string{"handshake", "codec"}[r.N(2)]
			s.A = r.N(6)
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

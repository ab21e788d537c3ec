package main

import (
	"bytes"
	"errors"
	"fmt"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	rt "github.com/xconnio/wampproto-go/zzsimrt"
)

// The client engine: one real client Session whose peer and whose serializer
// are under the simulator's control. The peer answers late, twice, with the
// wrong kind, with the wrong id or unasked; encoding and decoding can fail.

// faultySerializer fails when it is told to.
type faultySerializer struct {
	serializers.Serializer
	failOut, failIn bool
	failed          bool // it has failed to encode
}

var errSerializer = errors.New("simulated serializer failure")

func (f *faultySerializer) Serialize(m messages.Message) ([]byte, error) {
	if f.failOut {
		f.failed = true
		return nil, errSerializer
	}
	return f.Serializer.Serialize(m)
}

func (f *faultySerializer) Deserialize(b []byte) (messages.Message, error) {
	if f.failIn {
		return nil, errSerializer
	}
	return f.Serializer.Deserialize(b)
}

// clientModel is the reference: what the session may accept.
type clientModel struct {
	calls, registers, subscribes, publishes map[uint64]bool
	unregisters, unsubscribes               map[uint64]uint64
	regs, subs, invs                        map[uint64]bool
}

func newClientModel() *clientModel {
	return &clientModel{map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{},
		map[uint64]uint64{}, map[uint64]uint64{}, map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}}
}

func (m *clientModel) clone() *clientModel {
	n := newClientModel()
	for _, p := range [][2]map[uint64]bool{{m.calls, n.calls}, {m.registers, n.registers}, {m.subscribes, n.subscribes}, {m.publishes, n.publishes},
		{m.regs, n.regs}, {m.subs, n.subs}, {m.invs, n.invs}} {
		for k, v := range p[0] {
			p[1][k] = v
		}
	}
	for k, v := range m.unregisters {
		n.unregisters[k] = v
	}
	for k, v := range m.unsubscribes {
		n.unsubscribes[k] = v
	}
	return n
}

func (m *clientModel) String() string {
	return fmt.Sprintf("%v %v %v %v %v %v %v %v %v", m.calls, m.registers, m.subscribes, m.publishes, m.unregisters, m.unsubscribes, m.regs, m.subs, m.invs)
}

// Verdicts of the model on a message or request.
const (
	mustRefuse = iota
	mustAccept
	either
)

// maySend tells whether a message may be sent.
func (m *clientModel) maySend(msg messages.Message) int {
	switch x := msg.(type) {
	case *messages.Call, *messages.Yield, *messages.Register, *messages.Unregister, *messages.Publish, *messages.Subscribe, *messages.GoodBye:
		return mustAccept
	case *messages.Unsubscribe:
		if m.subs[x.SubscriptionID()] {
			return mustAccept
		}
	case *messages.Error:
		if x.MessageType() == messages.MessageTypeInvocation {
			return mustAccept
		}
	}
	return mustRefuse
}

// sent notes a message that was sent.
func (m *clientModel) sent(msg messages.Message) {
	switch x := msg.(type) {
	case *messages.Call:
		m.calls[x.RequestID()] = true
	case *messages.Yield:
		if p, _ := x.Options()["progress"].(bool); !p {
			delete(m.invs, x.RequestID())
		}
	case *messages.Register:
		m.registers[x.RequestID()] = true
	case *messages.Unregister:
		m.unregisters[x.RequestID()] = x.RegistrationID()
	case *messages.Publish:
		if a, _ := x.Options()["acknowledge"].(bool); a {
			m.publishes[x.RequestID()] = true
		}
	case *messages.Subscribe:
		m.subscribes[x.RequestID()] = true
	case *messages.Unsubscribe:
		m.unsubscribes[x.RequestID()] = x.SubscriptionID()
	case *messages.Error:
		delete(m.invs, x.RequestID())
	}
}

func take(set map[uint64]bool, id uint64) int {
	if !set[id] {
		return mustRefuse
	}
	delete(set, id)
	return mustAccept
}

// receive tells whether a message may be accepted, and notes what it changes.
func (m *clientModel) receive(msg messages.Message) int {
	switch x := msg.(type) {
	case *messages.Result:
		if p, _ := x.Details()["progress"].(bool); p {
			if m.calls[x.RequestID()] {
				return mustAccept
			}
			return mustRefuse
		}
		return take(m.calls, x.RequestID())
	case *messages.Registered:
		v := take(m.registers, x.RequestID())
		if v == mustAccept {
			m.regs[x.RegistrationID()] = true
		}
		return v
	case *messages.Unregistered:
		reg, ok := m.unregisters[x.RequestID()]
		if !ok {
			return mustRefuse
		}
		delete(m.unregisters, x.RequestID())
		if !m.regs[reg] {
			return either // the router confirms the end of what was never, or no longer, held
		}
		delete(m.regs, reg)
		return mustAccept
	case *messages.Subscribed:
		v := take(m.subscribes, x.RequestID())
		if v == mustAccept {
			m.subs[x.SubscriptionID()] = true
		}
		return v
	case *messages.Unsubscribed:
		sub, ok := m.unsubscribes[x.RequestID()]
		if !ok {
			return mustRefuse
		}
		delete(m.unsubscribes, x.RequestID())
		if !m.subs[sub] {
			return either
		}
		delete(m.subs, sub)
		return mustAccept
	case *messages.Published:
		return take(m.publishes, x.RequestID())
	case *messages.Event:
		if m.subs[x.SubscriptionID()] {
			return mustAccept
		}
		return mustRefuse
	case *messages.Invocation:
		if !m.regs[x.RegistrationID()] && !m.invs[x.RequestID()] {
			return mustRefuse
		}
		m.invs[x.RequestID()] = true
		return mustAccept
	case *messages.Error:
		switch x.MessageType() {
		case messages.MessageTypeCall:
			return take(m.calls, x.RequestID())
		case messages.MessageTypeRegister:
			return take(m.registers, x.RequestID())
		case messages.MessageTypeSubscribe:
			return take(m.subscribes, x.RequestID())
		case messages.MessageTypePublish:
			return take(m.publishes, x.RequestID())
		case messages.MessageTypeUnregister:
			if _, ok := m.unregisters[x.RequestID()]; ok {
				delete(m.unregisters, x.RequestID())
				return mustAccept
			}
		case messages.MessageTypeUnsubscribe:
			if _, ok := m.unsubscribes[x.RequestID()]; ok {
				delete(m.unsubscribes, x.RequestID())
				return mustAccept
			}
		}
		return mustRefuse
	case *messages.GoodBye, *messages.Abort:
		return mustAccept
	}
	return mustRefuse
}

// clientMessage builds the message of a step; requests (send) and what a router sends (recv).
func clientMessage(s Step, r *rt.PRNG) messages.Message {
	id, ref := uint64(1+s.B), uint64(1+s.D)
	switch s.H { // ids that look alike where only some of their bits are looked at
	case 1:
		id, ref = 1+uint64(s.B)<<32, 1+uint64(s.D)<<32
	case 2:
		id, ref = 1<<53-uint64(s.B)<<16, 1<<53-uint64(s.D)<<16
	case 3:
		id, ref = 1+uint64(s.B)<<8, 1+uint64(s.D)<<8
	}
	args, kwargs := simplePayload(r)
	opts := map[string]any{}
	if s.F&1 != 0 {
		opts["progress"] = true
	}
	if s.F&2 != 0 {
		opts["progress"] = false
	}
	if s.F&4 != 0 {
		opts["acknowledge"] = true
	} else if r.N(8) == 0 {
		opts["acknowledge"] = false
	}
	if r.N(3) == 0 {
		richOptions(r, opts)
	}
	details := map[string]any{}
	if r.N(3) == 0 {
		richOptions(r, details)
	}
	if s.F&16 != 0 {
		args = []any{make(chan int)} // no serializer can carry this
	}
	if s.Op == "send" {
		switch s.A {
		case 0:
			return messages.NewCall(id, opts, "a.b", args, kwargs)
		case 1:
			return messages.NewYield(id, opts, args, kwargs)
		case 2:
			return messages.NewRegister(id, opts, "a.b")
		case 3:
			return messages.NewUnregister(id, ref)
		case 4:
			return messages.NewPublish(id, opts, "a.b", args, kwargs)
		case 5:
			return messages.NewSubscribe(id, opts, "a.b")
		case 6:
			return messages.NewUnsubscribe(id, ref)
		case 7:
			return messages.NewError(messages.MessageTypeInvocation, id, details, "com.err", args, kwargs)
		case 8:
			return messages.NewError(errorKinds[s.D%len(errorKinds)], id, details, "com.err", args, kwargs)
		case 9:
			return messages.NewGoodBye("wamp.close.normal", map[string]any{})
		case 10:
			return messages.NewHello("realm1", "x", nil, map[string]any{}, nil)
		case 11:
			return messages.NewResult(id, details, args, kwargs)
		}
		return messages.NewEvent(ref, id, details, args, kwargs)
	}
	switch s.A {
	case 0:
		return messages.NewResult(id, opts, args, kwargs)
	case 1:
		return messages.NewRegistered(id, ref)
	case 2:
		return messages.NewUnregistered(id)
	case 3:
		return messages.NewInvocation(id, ref, opts, args, kwargs)
	case 4:
		return messages.NewPublished(id, ref)
	case 5:
		return messages.NewSubscribed(id, ref)
	case 6:
		return messages.NewUnsubscribed(id)
	case 7:
		return messages.NewEvent(ref, id, details, args, kwargs)
	case 8:
		return messages.NewError(errorKinds[s.D%len(errorKinds)], id, details, "com.err", args, kwargs)
	case 9:
		return messages.NewGoodBye("wamp.close.normal", map[string]any{})
	case 10:
		return messages.NewAbort(map[string]any{}, "wamp.error.x", nil, nil)
	case 11:
		return messages.NewWelcome(1, map[string]any{})
	case 12:
		return messages.NewCall(id, opts, "a.b", args, kwargs)
	case 13:
		return messages.NewRegister(id, opts, "a.b")
	case 14:
		return messages.NewYield(id, opts, args, kwargs)
	}
	return messages.NewChallenge("ticket", nil)
}

// richOptions adds what routers and applications put into details and options beside
// what a session looks at; none of it makes a difference to a session.
func richOptions(r *rt.PRNG, opts map[string]any) {
	all := []struct {
		k string
		v any
	}{{"procedure", "a.b"}, {"topic", "a.b"}, {"caller", 7}, {"caller_authid", "alice"}, {"caller_authrole", ""},
		{"publisher", 9}, {"publisher_authid", "böb"}, {"publisher_authrole", "r"}, {"receive_progress", true},
		{"timeout", 0}, {"match", "prefix"}, {"invoke", "roundrobin"}, {"exclude_me", false}, {"exclude", []any{1, 2}},
		{"disclose_me", true}, {"retain", false}, {"x_custom", map[string]any{"progress": true, "acknowledge": true}}}
	every := r.N(4) == 0
	for _, o := range all {
		if every || r.N(4) == 0 {
			opts[o.k] = o.v
		}
	}
}

var errorKinds = []uint64{messages.MessageTypeCall, messages.MessageTypeRegister, messages.MessageTypeUnregister,
	messages.MessageTypeSubscribe, messages.MessageTypeUnsubscribe, messages.MessageTypePublish, messages.MessageTypeInvocation,
	messages.MessageTypeResult, 0, 999}

func simplePayload(r *rt.PRNG) ([]any, map[string]any) {
	var args []any
	var kwargs map[string]any
	switch r.N(5) {
	case 0:
	case 1:
		args = []any{r.N(1000), "x"}
	case 2:
		args = []any{[]any{1, "é"}, map[string]any{"n": 1.5}}
		kwargs = map[string]any{"k": true}
	case 3:
		kwargs = map[string]any{"a": []any{}, "b": nil}
	case 4:
		args = []any{}
	}
	return args, kwargs
}

// propOfMessage: replies to requests are C16's, what is gated by a hold is C17's.
func propOfMessage(m messages.Message) string {
	switch m.(type) {
	case *messages.Event, *messages.Invocation:
		return "C17"
	}
	return "C16"
}

func runClient(p *Plan, trace bool) *Result {
	c := newCtx(p.Prop, trace)
	rt.SeedRand(rt.Mix(p.Seed, 1))
	rt.SeedMaps(rt.Mix(p.Seed, 2))
	rt.SetClock(1_700_000_000_000_000_000, nil)
	rt.SingleTask(true)
	defer rt.SingleTask(false)
	fs := &faultySerializer{Serializer: serializerOf(p.cfg("ser"))}
	peer := serializerOf(p.cfg("ser"))
	sess := wampproto.NewSession(fs)
	model := newClientModel()
	failedSends := map[string]bool{}
	// what was handed to the transport may wait there while the session goes on
	type waiting struct {
		data []byte
		was  string
		kind string
	}
	var out []waiting
	for _, s := range p.Steps {
		for _, o := range out {
			if string(o.data) != o.was {
				c.violate("C16", "sent-changes", "the bytes of a %s, which the session handed out to be sent, changed afterwards", o.kind)
				c.violate("C20", "sent-changes", "the bytes of a %s, which the session handed out to be sent, changed afterwards", o.kind)
				break
			}
		}
		if c.failed() {
			break
		}
		c.now = s.At
		r := rt.NewPRNG(rt.Mix(p.Seed^0xc11e, uint64(s.I)))
		msg := clientMessage(s, &r)
		prop := propOfMessage(msg)
		var err error
		if s.Op == "send" {
			verdict := model.maySend(msg)
			fs.failOut = s.F&8 != 0
			unencodable := fs.failOut
			if _, e := peer.Serialize(msg); e != nil {
				unencodable = true
			}
			var data []byte
			crash := protect(func() { data, err = sess.SendMessage(msg) })
			fs.failOut = false
			if crash != "" {
				c.violate("C16", "crash", "sending %s %v crashes the session: %s", typeName(msg), msg.Marshal(), crash)
				break
			}
			c.event(fmt.Sprintf("send %s(%s) error=%v", typeName(msg), norm(briefly(msg)), err != nil))
			if unencodable {
				c.count("fault:encode-failure")
				verdict = mustRefuse
				failedSends[fmt.Sprintf("%d", s.I)] = true
			}
			_, isUnsub := msg.(*messages.Unsubscribe)
			c.check("C16")
			if verdict == mustAccept && err != nil {
				c.violate("C16", "send-refused", "a proper %s(%s) cannot be sent: %v", typeName(msg), norm(briefly(msg)), err)
			} else if verdict == mustRefuse && err == nil {
				if unencodable {
					c.violate("C16", "send-unencoded", "%s could not be encoded, SendMessage reports success", typeName(msg))
				} else if isUnsub {
					c.violate("C17", "send-not-held", "UNSUBSCRIBE for a subscription that is not held is sent")
				} else {
					c.violate("C16", "send-wrong-kind", "%s is nothing a client session may send, and is sent", typeName(msg))
				}
			}
			if err == nil {
				model.sent(msg)
				if out = append(out, waiting{data, string(data), typeName(msg)}); len(out) > 4 {
					out = out[1:]
				}
				got, e := peer.Deserialize(data)
				if e != nil || norm(got.Marshal()) != norm(viaSerializer(peer, msg)) {
					c.violate("C20", "send-altered", "what is sent for %s differs from it", typeName(msg))
					c.violate("C16", "send-altered", "what is sent for %s differs from it", typeName(msg))
				}
			}
			continue
		}
		// receive
		if s.F&16 != 0 {
			continue
		}
		var got messages.Message
		fault := s.F & (8 | 32)
		wire := p.cfg("wire") == 1
		crash := protect(func() {
			if !wire {
				fault = 0
				got, err = sess.ReceiveMessage(msg)
				return
			}
			data, e := peer.Serialize(msg)
			if e != nil {
				panic(e)
			}
			if fault&8 != 0 {
				fs.failIn = true
			} else if fault&32 != 0 {
				if p.cfg("ser") == serJSON {
					data = bytes.TrimRight(data, " \t\r\n") // which mean nothing
				}
				data = data[:len(data)-1-r.N(len(data)-1)] // torn
			}
			got, err = sess.Receive(data)
			fs.failIn = false
		})
		if crash != "" {
			c.violate(prop, "crash", "receiving %s crashes the session: %s", typeName(msg), crash)
			break
		}
		c.event(fmt.Sprintf("receive %s(%s) fault=%d error=%v", typeName(msg), norm(briefly(msg)), fault, err != nil))
		c.log("model %s", model)
		c.check(prop)
		if fault != 0 {
			c.count("fault:decode-failure")
			if err == nil {
				c.violate(prop, "accepted-broken", "a %s that cannot be decoded is accepted", typeName(msg))
			}
			continue
		}
		before := ""
		if len(p.Steps) < 400 {
			before = model.String()
		}
		switch model.receive(msg) {
		case mustAccept:
			if err != nil || got == nil {
				c.violate(prop, "refused", "%s(%s) is due and is refused: %v (model: %s)", typeName(msg), norm(briefly(msg)), err, before)
			} else if got.Type() != msg.Type() || (norm(got.Marshal()) != norm(viaSerializer(peer, msg)) && norm(got.Marshal()) != norm(msg.Marshal())) {
				c.violate(prop, "altered", "%s is handed to the application as %s", norm(msg.Marshal()), norm(got.Marshal()))
			}
		case mustRefuse:
			if err == nil {
				c.violate(prop, "accepted", "%s(%s) is not due and is accepted (model: %s)", typeName(msg), norm(briefly(msg)), before)
			}
		}
	}
	return c.done()
}

func viaSerializer(s serializers.Serializer, m messages.Message) []any {
	b, err := s.Serialize(m)
	if err != nil {
		return nil
	}
	out, err := s.Deserialize(b)
	if err != nil {
		return nil
	}
	return out.Marshal()
}

// briefly are the leading fields of a message.
func briefly(m messages.Message) []any {
	all := m.Marshal()
	if len(all) > 4 {
		all = all[:4]
	}
	out := []any{}
	for _, v := range all[1:] {
		switch v.(type) {
		case []any:
			continue
		}
		out = append(out, v)
	}
	return out
}

func genClient(prop string, seed uint64, tier string) *Plan {
	r := rt.NewPRNG(rt.Mix(seed, 0xc7))
	p := &Plan{Prop: prop, Engine: "client", Seed: seed, Cfg: map[string]int{"ser": r.N(3), "wire": r.N(2)}}
	ids, refs := 1+r.N(4), 1+r.N(4)
	n := []int{8, 25, 60, 150}[r.N(4)]
	faults := r.N(3)
	var t int64
	var recent []Step
	wide := 0
	if r.N(5) == 0 {
		wide = 1 + r.N(3)
	}
	defer func() {
		for i := range p.Steps {
			p.Steps[i].H = wide
		}
	}()
	storm := 0
	switch k := r.N(10000); {
	case k == 0:
		storm = 66000 + r.N(5000)
	case k < 10:
		storm = 4100 + r.N(2000)
	case k < 100:
		storm = 260 + r.N(800)
	}
	if storm > 0 { // many requests are under way at once, then many answers come, in any order
		if wide == 2 && storm > 60000 {
			wide = 0
		}
		kind := []int{0, 2, 4, 5, 3}[r.N(5)]
		flags := 4
		order := []int{}
		for k := 0; k < storm; k++ {
			order = append(order, k)
			p.Steps = append(p.Steps, Step{I: k, Op: "send", A: kind, B: 10 + k, D: 10 + k, F: flags})
		}
		mode := r.N(3)
		for k := range order {
			switch mode {
			case 0: // backwards
				order[k] = storm - 1 - k
			case 1:
				j := k + r.N(storm-k)
				order[k], order[j] = order[j], order[k]
			}
		}
		answer := map[int]int{0: 0, 2: 1, 3: 2, 4: 4, 5: 5}[kind]
		for k, q := range order {
			p.Steps = append(p.Steps, Step{I: storm + k, Op: "recv", A: answer, B: 10 + q, D: 10 + q, F: flags})
			if kind == 5 && r.N(3) == 0 { // what it now holds brings events
				p.Steps = append(p.Steps, Step{I: storm + k, Op: "recv", A: 7, B: k, D: 10 + order[r.N(k+1)]})
			} else if kind == 2 && r.N(3) == 0 {
				p.Steps = append(p.Steps, Step{I: storm + k, Op: "recv", A: 3, B: k, D: 10 + order[r.N(k+1)]})
			}
		}
		if kind != 0 && kind != 4 && kind != 3 && r.N(2) == 0 { // and what is held is given up again, all at once
			end, ended := 3, 2
			if kind == 5 {
				end, ended = 6, 6
			}
			for k := range order {
				j := k + r.N(storm-k)
				order[k], order[j] = order[j], order[k]
			}
			for k, q := range order {
				p.Steps = append(p.Steps, Step{I: 2*storm + k, Op: "send", A: end, B: 10 + k, D: 10 + q, F: flags})
			}
			for k, q := range order {
				if mode == 0 {
					k, q = storm-1-k, order[storm-1-k]
				}
				p.Steps = append(p.Steps, Step{I: 3*storm + k, Op: "recv", A: ended, B: 10 + k, D: 10 + q, F: flags})
				if r.N(3) == 0 { // what has been given up brings nothing any more
					p.Steps = append(p.Steps, Step{I: 3*storm + k, Op: "recv", A: map[int]int{3: 3, 6: 7}[end], B: k, D: 10 + order[r.N(storm)]})
				}
			}
		}
		t = 10
	}
	for i := 0; i < n; i++ {
		s := Step{I: i, At: t, B: r.N(ids), D: r.N(refs)}
		t += int64(r.N(50))
		if r.N(4) == 0 {
			s.F |= 1
		} else if r.N(6) == 0 {
			s.F |= 2
		}
		if r.N(2) == 0 {
			s.F |= 4
		}
		if faults > 0 {
			switch r.N(12) {
			case 0:
				s.F |= 8
			case 1:
				s.F |= 16
			case 2:
				s.F |= 32
			}
		}
		if r.N(2) == 0 {
			s.Op = "send"
			s.A = r.N(8)
			if r.N(10) == 0 {
				s.A = 8 + r.N(5)
				s.D = r.N(len(errorKinds))
			}
			recent = append(recent, s)
		} else {
			s.Op = "recv"
			s.A = r.N(8)
			switch {
			case r.N(5) == 0:
				s.A = 8
				s.D = r.N(len(errorKinds))
			case r.N(12) == 0:
				s.A = 9 + r.N(7)
			case len(recent) > 0 && r.N(2) == 0:
				// an answer of the right kind to something recent
				q := recent[len(recent)-1-r.N(min(len(recent), 4))]
				if k, ok := map[int]int{0: 0, 2: 1, 3: 2, 4: 4, 5: 5, 6: 6}[q.A]; ok {
					s.A, s.B = k, q.B
				}
			}
			if s.A != 8 && (prop == "C17" && r.N(2) == 0) {
				s.A = []int{3, 7, 1, 5}[r.N(4)]
			}
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

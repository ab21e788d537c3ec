package main

import (
	"fmt"
	"strings"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
	rt "github.com/xconnio/wampproto-go/zzsimrt"
)

// The shared-parts engine: tasks that have nothing to do with each other use
// the parts of the library that a process has one of: serializer objects, one
// user database, authenticators, id and challenge generators, package level
// tables, and messages that a router hands to several sessions. What each
// task gets must be what it would get alone.

type sharedSim struct {
	*ctx
	p     *Plan
	sers  []serializers.Serializer
	msgs  []messages.Message
	raws  [][][]byte // message, serializer
	users []auth.ClientAuthenticator
	det   *wampproto.SessionDetails
}

// sharedDB is one user database for all connections.
type sharedDB struct{}

func (sharedDB) Methods() []auth.Method { return authMethods }
func (sharedDB) Authenticate(req auth.Request) (auth.Response, error) {
	who := req.AuthID()
	switch req.AuthMethod() {
	case auth.WAMPCRA:
		if strings.HasSuffix(who, "1") {
			return auth.NewCRAResponseSalted(who, "role-"+who, "secret-"+who, "salt", 3, 32, 0), nil
		}
		return auth.NewCRAResponse(who, "role-"+who, "secret-"+who, 0), nil
	case auth.Ticket:
		t, ok := req.(*auth.TicketRequest)
		if !ok || t.Ticket() != "ticket-"+who {
			return nil, fmt.Errorf("wrong ticket")
		}
	}
	return auth.NewResponse(who, "role-"+who, 0)
}

// operation performs one step and describes what came of it, with random parts taken out and returned.
func (w *sharedSim) operation(s Step) (res string, random []string, ids []uint64) {
	switch s.Op {
	case "encode":
		m := w.msgs[s.A%len(w.msgs)]
		ser := w.sers[s.B%3]
		data, err := ser.Serialize(m)
		if err != nil {
			return "error", nil, nil
		}
		back, err := ser.Deserialize(data)
		if err != nil {
			return "undecodable", nil, nil
		}
		return norm(back.Marshal()), nil, nil
	case "decode":
		m, err := w.sers[s.B%3].Deserialize(w.raws[s.A%len(w.msgs)][s.B%3])
		if err != nil {
			return "error", nil, nil
		}
		return norm(m.Marshal()), nil, nil
	case "payload":
		id := uint64(1 + s.B%3)
		args := []any{s.A, "x", []any{true, nil}}
		kwargs := map[string]any{"k": s.A, "l": []any{"é"}}
		b, err := serializers.SerializePayload(id, args, kwargs)
		if err != nil {
			return "error", nil, nil
		}
		a, k, err := serializers.DeserializePayload(id, b)
		return norm(a) + norm(k) + errWord(err), nil, nil
	case "id":
		id := wampproto.GenerateID()
		return "id", nil, []uint64{id}
	case "challenge":
		if s.B%2 == 0 {
			ch, err := auth.GenerateCryptoSignChallenge()
			if err != nil || len(ch) != 64 {
				return fmt.Sprintf("challenge of %d characters, %s", len(ch), errWord(err)), nil, nil
			}
			return "challenge", []string{ch}, nil
		}
		ch, err := auth.GenerateWAMPCRAChallenge(uint64(s.A), "alice", "r", "p")
		if err != nil {
			return "error", nil, nil
		}
		key := auth.DeriveWAMPCRAKey("salt", "secret", 2, 32)
		sig := auth.SignWAMPCRAChallenge(ch, key)
		ok := auth.VerifyWAMPCRASignature(sig, ch, key)
		bad := auth.VerifyWAMPCRASignature(sig, ch+" ", key)
		return fmt.Sprintf("challenge verifies=%v forged=%v", ok, bad), []string{ch}, nil
	case "handshake":
		return w.handshake(s)
	case "answer":
		// the challenges of different connections, answered by one authenticator
		a := w.users[s.A%len(w.users)]
		extra := map[string]any{"challenge": strings.Repeat(fmt.Sprintf("%02x", s.B), 32)}
		if s.B%4 > 0 {
			extra["salt"], extra["iterations"], extra["keylen"] = fmt.Sprint("salt", s.B/4), 1+s.B%4, 16*(1+s.B%3)
		}
		m, err := a.Authenticate(*messages.NewChallenge(a.AuthMethod(), extra))
		if err != nil {
			return "error", nil, nil
		}
		return norm(m.Marshal()), nil, nil
	case "select":
		m, err := auth.SelectAuthMethod(authMethods, []string{"wampcra", "ticket"}[s.A%2:])
		return string(m) + errWord(err), nil, nil
	case "time":
		return auth.ISO8601(time.Unix(int64(1_600_000_000+s.A*1000), int64(s.B)*1_000_000).UTC()), nil, nil
	case "raw":
		b, err := transports.SendHandshake(transports.NewHandshake(transports.Serializer(1+s.A%3), 1<<(9+s.B%16)))
		if err != nil {
			return "error", nil, nil
		}
		h, err := transports.ReceiveHandshake(b)
		if err != nil {
			return "error", nil, nil
		}
		hd, err := transports.ReceiveMessageHeader(transports.SendMessageHeader(transports.NewMessageHeader(transports.MessagePing, s.A*997)))
		if err != nil {
			return "error", nil, nil
		}
		return fmt.Sprint(h.Serializer(), h.MaxMessageSize(), hd.Kind(), hd.Length()), nil, nil
	case "details":
		d := w.det
		return fmt.Sprint(d.ID(), d.Realm(), d.AuthID(), d.AuthRole(), norm(d.RouterRoles())), nil, nil
	}
	panic("unknown operation " + s.Op)
}

// handshake lets a client in; authenticators, serializer and user database are shared with other tasks.
func (w *sharedSim) handshake(s Step) (string, []string, []uint64) {
	a := w.users[s.A%len(w.users)]
	ser := w.sers[s.B%3]
	j := wampproto.NewJoiner("realm1", ser, a)
	acc := wampproto.NewAcceptor(ser, sharedDB{})
	data, err := j.SendHello()
	if err != nil {
		return "no hello", nil, nil
	}
	for i := 0; i < 4; i++ {
		reply, welcomed, err := acc.Receive(data)
		if err != nil {
			return "router: " + err.Error(), nil, nil
		}
		data, err = j.Receive(reply)
		if err != nil {
			return "client: " + err.Error(), nil, nil
		}
		if welcomed {
			break
		}
	}
	jd, err1 := j.SessionDetails()
	ad, err2 := acc.SessionDetails()
	if err1 != nil || err2 != nil {
		return "not joined", nil, nil
	}
	return fmt.Sprintf("%s %s %s %s %v", jd.AuthID(), jd.AuthRole(), ad.AuthID(), ad.AuthRole(), jd.ID() == ad.ID()), nil, []uint64{jd.ID()}
}

// bareMessage has nothing in it that may be left out.
func bareMessage(kind int, id uint64) messages.Message {
	switch kind {
	case 0:
		return messages.NewCall(id, nil, "a.b", nil, nil)
	case 1:
		return messages.NewPublish(id, nil, "a.b", nil, nil)
	case 2:
		return messages.NewRegister(id, nil, "a.b")
	case 3:
		return messages.NewSubscribe(id, nil, "a.b")
	case 4:
		return messages.NewYield(id, nil, nil, nil)
	case 5:
		return messages.NewResult(id, nil, nil, nil)
	case 6:
		return messages.NewInvocation(id, 1, nil, nil, nil)
	case 7:
		return messages.NewEvent(id, 1, nil, nil, nil)
	case 8:
		return messages.NewError(messages.MessageTypeCall, id, nil, "com.err", nil, nil)
	case 9:
		return messages.NewWelcome(id, nil)
	}
	return messages.NewHello("realm1", "", nil, nil, nil)
}

// parts makes new parts to be shared.
func (w *sharedSim) parts() bool {
	p := w.p
	w.sers = nil
	for k := 0; k < 3; k++ {
		w.sers = append(w.sers, serializerOf(k))
	}
	w.msgs = nil
	r := rt.NewPRNG(rt.Mix(p.Seed, 4))
	for i := 0; i < 3; i++ {
		w.msgs = append(w.msgs, clientMessage(Step{Op: []string{"send", "recv"}[r.N(2)], A: r.N(9), B: r.N(100), D: r.N(5), F: r.N(8)}, &r))
		if r.N(4) == 0 {
			w.msgs[i] = bareMessage(r.N(11), uint64(1+r.N(100)))
		}
	}
	w.users = nil
	for i := 0; i < 2; i++ {
		id := fmt.Sprintf("user%d", i)
		cs, err := auth.NewCryptoSignAuthenticator(id, strings.Repeat(fmt.Sprintf("%02x", 7+i), 32), map[string]any{"x": 1})
		if err != nil {
			w.violate(p.Prop, "crash", "no cryptosign authenticator: %v", err)
			return false
		}
		w.users = append(w.users, auth.NewAnonymousAuthenticator(id, nil), auth.NewTicketAuthenticator(id, "ticket-"+id, nil),
			auth.NewWAMPCRAAuthenticator(id, "secret-"+id, map[string]any{}), cs)
	}
	return true
}

func runShared(p *Plan, trace bool) *Result {
	w := &sharedSim{ctx: newCtx(p.Prop, trace), p: p}
	rt.SeedRand(rt.Mix(p.Seed, 1))
	rt.SeedMaps(rt.Mix(p.Seed, 2))
	rt.SeedEntropy(rt.Mix(p.Seed, 3))
	rt.SetClock(1_700_000_000_000_000_000, nil)
	rt.SingleTask(true)
	defer func() { rt.Entropy = nil; rt.SingleTask(false) }()
	if !w.parts() {
		return w.done()
	}
	for _, m := range w.msgs {
		var raws [][]byte
		for k := 0; k < 3; k++ {
			b, err := w.sers[k].Serialize(m)
			if err != nil {
				b = nil
			}
			raws = append(raws, b)
		}
		w.raws = append(w.raws, raws)
	}
	var whole []string
	for _, m := range w.msgs {
		whole = append(whole, norm(m.Marshal()))
	}
	w.det = sessDetails(5)
	// what each operation gives alone, before or after the others; the parts in
	// use are new each time, so that what they do at their first use is seen
	want := map[int]string{}
	alone := func() bool {
		for _, s := range p.Steps {
			s := s
			if !w.parts() {
				return false
			}
			if crash := protect(func() { want[s.I], _, _ = w.operation(s) }); crash != "" {
				w.violate(p.Prop, "crash", "%s alone crashes: %s", s.Op, crash)
				return false
			}
		}
		return true
	}
	if p.cfg("late") == 0 && !alone() || !w.parts() {
		return w.done()
	}
	tasks := p.cfg("tasks")
	type outcome struct {
		s      Step
		res    string
		random []string
		ids    []uint64
	}
	got := make([][]outcome, tasks)
	var bodies []func()
	for t := 0; t < tasks; t++ {
		t := t
		var mine []Step
		for _, s := range p.Steps {
			if s.C == t {
				mine = append(mine, s)
			}
		}
		bodies = append(bodies, func() {
			for k, s := range mine {
				rt.BeginOp(k)
				o := outcome{s: s}
				o.res, o.random, o.ids = w.operation(s)
				got[t] = append(got[t], o)
			}
		})
	}
	rt.SingleTask(false)
	ok := w.runTasks(p, bodies)
	rt.SingleTask(true)
	for i, m := range w.msgs {
		if crash := protect(func() {
			if now := norm(m.Marshal()); ok && now != whole[i] {
				w.violate(p.Prop, "message-changed", "a message that was %s is %s after its use", whole[i], now)
			}
		}); crash != "" {
			w.violate(p.Prop, "crash", "a message cannot be read after its use: %s", crash)
		}
	}
	if p.cfg("late") == 1 && ok && !alone() {
		return w.done()
	}
	randoms, ids := map[string]bool{}, map[uint64]bool{}
	for t := range got {
		for _, o := range got[t] {
			w.event(fmt.Sprintf("task %d: %s(%d,%d) = %s %v %v", t, o.s.Op, o.s.A, o.s.B, o.res, o.random, o.ids))
			if !ok {
				continue
			}
			w.check(p.Prop)
			if o.res != want[o.s.I] {
				w.violate(p.Prop, "interference", "%s(%d,%d) among other tasks gives %s, alone it gives %s", o.s.Op, o.s.A, o.s.B, o.res, want[o.s.I])
			}
			for _, x := range o.random {
				if randoms[x] {
					w.violate(p.Prop, "challenge-repeated", "two tasks got the same challenge %s", x)
				}
				randoms[x] = true
			}
			for _, x := range o.ids {
				if ids[x] {
					w.violate(p.Prop, "id-repeated", "two tasks got the same id %d", x)
				}
				if x < 1 || x > idLimit {
					w.violate(p.Prop, "out-of-range", "id %d", x)
				}
				ids[x] = true
			}
		}
	}
	return w.done()
}

func genShared(prop string, seed uint64, tier string) *Plan {
	r := rt.NewPRNG(rt.Mix(seed, 0x54a))
	p := &Plan{Prop: prop, Engine: "shared", Seed: seed, FreeSched: true, Cfg: map[string]int{}}
	tasks := 2 + r.N(3)
	p.Cfg["tasks"] = tasks
	p.Cfg["mean"] = []int{1, 3, 10, 40}[r.N(4)]
	ops := []string{"encode", "encode", "encode", "decode", "decode", "payload", "id", "challenge", "handshake", "handshake", "answer", "answer", "select", "time", "raw", "details"}
	if r.N(2) == 0 {
		p.Cfg["late"] = 1
	}
	focus := ""
	if r.N(2) == 0 {
		focus = ops[r.N(len(ops))]
	}
	msg, kind := r.N(3), r.N(3)
	for t := 0; t < tasks; t++ {
		for k := 1 + r.N(3); k > 0; k-- {
			s := Step{I: len(p.Steps), C: t, Op: ops[r.N(len(ops))], A: r.N(8), B: r.N(24)}
			if focus != "" && r.N(4) > 0 {
				s.Op = focus
			}
			if r.N(2) == 0 { // the same thing as the others
				s.A, s.B = msg, kind
			}
			p.Steps = append(p.Steps, s)
		}
	}
	return p
}

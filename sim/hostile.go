package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"syscall"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
	rt "github.com/xconnio/wampproto-go/zzsimrt"
)

// The hostile engine: peers send whatever bytes they like, well formed or not,
// to a router with honest sessions on it, to acceptors, and, as a router, to
// clients and joiners. Nothing they send may bring the receiver down, make it
// use memory out of proportion, or disturb the honest sessions.

const (
	evilAllocBase   = 8 << 20
	evilAllocFactor = 600
	evilStack       = 64 << 20
	evilAddressCap  = 24 << 30
)

// ---------------------------------------------------------------- bytes

var evilStrings = []string{"", "a", "com.honest.proc", "com.honest.topic", "a.b", "..", "a..b", ".", "\x00", "é", "\xff\xfe", "*", "[", "a[", "\\", "exact", "prefix", "wildcard", "single", "roundrobin", "first", "last", "random",
	"wampcra", "ticket", "cryptosign", "anonymous", "challenge", strings.Repeat("a.", 3000)}

var evilKeys = []string{"match", "invoke", "progress", "receive_progress", "acknowledge", "exclude_me", "authmethods", "authid", "authextra", "authrole", "authmethod", "roles", "pubkey", "challenge", "salt", "iterations", "keylen", "x", "", "procedure", "topic", "caller", "ppt_scheme", "timeout"}

type rawNumber string // a JSON number literal

// evilValue makes a value of any type and shape.
func evilValue(r *rt.PRNG, depth int) any {
	k := r.N(22)
	if depth <= 0 && k >= 14 {
		k = r.N(14)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.N(2) == 0
	case 2, 3:
		return int64(r.N(300)) - 50
	case 4:
		return []uint64{0, 1, 1 << 31, 1 << 32, 1 << 53, 1<<53 + 1, 1 << 63, math.MaxUint64}[r.N(8)]
	case 5:
		return []int64{math.MinInt64, -1, math.MinInt32, math.MaxInt64, -1 << 53}[r.N(5)]
	case 6:
		return []float64{0, -0.5, 1, 1.5, 1e300, -1e300, 4503599627370497.5, 1 << 63, 1e19, math.SmallestNonzeroFloat64}[r.N(10)]
	case 7:
		return []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.N(3)]
	case 8, 9, 10:
		return evilStrings[r.N(len(evilStrings))]
	case 11:
		b := make([]byte, r.N(9))
		for i := range b {
			b[i] = byte(r.U64())
		}
		return b
	case 12:
		return rawNumber([]string{"1e400", "-0", "18446744073709551616", "0.1e-400", "1E5", "123456789012345678901234567890"}[r.N(6)])
	case 13:
		return int64(r.N(80))
	case 14, 15, 16:
		var l []any
		for n := r.N(5); n > 0; n-- {
			l = append(l, evilValue(r, depth-1))
		}
		if l == nil {
			l = []any{}
		}
		return l
	case 17:
		m := map[any]any{}
		for n := r.N(4); n > 0; n-- {
			switch r.N(4) {
			case 0:
				m[int64(r.N(5))] = evilValue(r, depth-1)
			case 1:
				m[r.N(2) == 0] = evilValue(r, depth-1)
			case 2:
				m[1.5] = evilValue(r, depth-1)
			default:
				m[evilKeys[r.N(len(evilKeys))]] = evilValue(r, depth-1)
			}
		}
		return m
	}
	m := map[any]any{}
	for n := r.N(5); n > 0; n-- {
		m[evilKeys[r.N(len(evilKeys))]] = evilValue(r, depth-1)
	}
	return m
}

func plain(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[any]any{}
		for k, e := range x {
			m[k] = plain(e)
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i := range x {
			l[i] = plain(x[i])
		}
		return l
	case []string:
		l := make([]any, len(x))
		for i := range x {
			l[i] = x[i]
		}
		return l
	case int:
		return int64(x)
	}
	return v
}

func sortedAny(m map[any]any) []any {
	keys := make([]any, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		return fmt.Sprintf("%T%v", keys[i], keys[i]) < fmt.Sprintf("%T%v", keys[j], keys[j])
	})
	return keys
}

// evilEncode encodes a value in one of the many ways the format allows.
func evilEncode(kind int, v any, r *rt.PRNG) []byte {
	switch kind {
	case serCBOR:
		return evilCBOR(nil, v, r)
	case serMsgPack:
		return evilMsgPack(nil, v, r)
	}
	return evilJSON(nil, v, r)
}

func evilJSON(b []byte, v any, r *rt.PRNG) []byte {
	switch x := v.(type) {
	case rawNumber:
		return append(b, x...)
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return append(b, "NaN"...)
		}
	case []byte:
		s, _ := json.Marshal("\x00" + string(x))
		return append(b, s...)
	case []any:
		b = append(b, '[')
		for i, e := range x {
			if i > 0 {
				b = append(b, ',')
			}
			if r.N(8) == 0 {
				b = append(b, ' ', '\n')
			}
			b = evilJSON(b, e, r)
		}
		return append(b, ']')
	case map[any]any:
		b = append(b, '{')
		for i, k := range sortedAny(x) {
			if i > 0 {
				b = append(b, ',')
			}
			s, _ := json.Marshal(fmt.Sprint(k))
			b = append(b, s...)
			b = append(b, ':')
			b = evilJSON(b, x[k], r)
		}
		return append(b, '}')
	}
	s, err := json.Marshal(v)
	if err != nil {
		return append(b, "null"...)
	}
	return append(b, s...)
}

func cborHead(b []byte, major byte, n uint64, r *rt.PRNG) []byte {
	w := r.N(6)
	switch {
	case n < 24 && w < 3:
		return append(b, major<<5|byte(n))
	case n < 1<<8 && w < 4:
		return append(b, major<<5|24, byte(n))
	case n < 1<<16 && w < 5:
		return binary.BigEndian.AppendUint16(append(b, major<<5|25), uint16(n))
	case n < 1<<32:
		return binary.BigEndian.AppendUint32(append(b, major<<5|26), uint32(n))
	}
	return binary.BigEndian.AppendUint64(append(b, major<<5|27), n)
}

func evilCBOR(b []byte, v any, r *rt.PRNG) []byte {
	if r.N(40) == 0 {
		b = cborHead(b, 6, uint64([]int{0, 1, 2, 3, 24, 32, 55799}[r.N(7)]), r) // a tag
	}
	switch x := v.(type) {
	case nil:
		return append(b, []byte{0xf6, 0xf6, 0xf7}[r.N(3)])
	case bool:
		if x {
			return append(b, 0xf5)
		}
		return append(b, 0xf4)
	case int64:
		if x < 0 {
			return cborHead(b, 1, uint64(-(x + 1)), r)
		}
		return cborHead(b, 0, uint64(x), r)
	case uint64:
		return cborHead(b, 0, x, r)
	case float64:
		switch r.N(3) {
		case 0:
			return binary.BigEndian.AppendUint32(append(b, 0xfa), math.Float32bits(float32(x)))
		case 1:
			if r.N(4) == 0 {
				return append(b, 0xf9, byte(r.U64()), byte(r.U64()))
			}
		}
		return binary.BigEndian.AppendUint64(append(b, 0xfb), math.Float64bits(x))
	case string:
		if r.N(12) == 0 {
			b = append(b, 0x7f)
			b = cborHead(b, 3, uint64(len(x)), r)
			b = append(b, x...)
			return append(b, 0xff)
		}
		return append(cborHead(b, 3, uint64(len(x)), r), x...)
	case rawNumber:
		return append(b, 0xc2, 0x49, 1, 0, 0, 0, 0, 0, 0, 0, 0)
	case []byte:
		return append(cborHead(b, 2, uint64(len(x)), r), x...)
	case []any:
		indef := r.N(10) == 0
		if indef {
			b = append(b, 0x9f)
		} else {
			b = cborHead(b, 4, uint64(len(x)), r)
		}
		for _, e := range x {
			b = evilCBOR(b, e, r)
		}
		if indef {
			b = append(b, 0xff)
		}
		return b
	case map[any]any:
		indef := r.N(10) == 0
		if indef {
			b = append(b, 0xbf)
		} else {
			b = cborHead(b, 5, uint64(len(x)), r)
		}
		for _, k := range sortedAny(x) {
			b = evilCBOR(b, k, r)
			b = evilCBOR(b, x[k], r)
		}
		if indef {
			b = append(b, 0xff)
		}
		return b
	}
	return append(b, 0xf6)
}

func evilMsgPack(b []byte, v any, r *rt.PRNG) []byte {
	head := func(b []byte, fix byte, fixMax int, c8, c16, c32 byte, n int) []byte {
		w := r.N(6)
		switch {
		case fixMax > 0 && n < fixMax && w < 3:
			return append(b, fix|byte(n))
		case c8 != 0 && n < 1<<8 && w < 4:
			return append(b, c8, byte(n))
		case n < 1<<16 && w < 5:
			return binary.BigEndian.AppendUint16(append(b, c16), uint16(n))
		}
		return binary.BigEndian.AppendUint32(append(b, c32), uint32(n))
	}
	if r.N(60) == 0 {
		switch r.N(4) {
		case 0:
			return append(b, 0xd4, byte(r.U64()), byte(r.U64()))
		case 1:
			return append(b, 0xd6, 0xff, 0, 0, 0, byte(r.U64())) // timestamp
		case 2:
			n := r.N(20)
			b = append(b, 0xc7, byte(n), byte(r.U64()))
			return append(b, make([]byte, n)...)
		default:
			return append(b, 0xc1)
		}
	}
	switch x := v.(type) {
	case nil:
		return append(b, 0xc0)
	case bool:
		if x {
			return append(b, 0xc3)
		}
		return append(b, 0xc2)
	case int64:
		w := r.N(6)
		switch {
		case x >= 0 && x < 128 && w < 2:
			return append(b, byte(x))
		case x < 0 && x >= -32 && w < 2:
			return append(b, byte(x))
		case x >= 0 && x < 256 && w < 3:
			return append(b, 0xcc, byte(x))
		case x >= -128 && x < 128 && w < 4:
			return append(b, 0xd0, byte(x))
		case x >= -32768 && x < 32768 && w < 5:
			return binary.BigEndian.AppendUint16(append(b, 0xd1), uint16(x))
		case x >= math.MinInt32 && x <= math.MaxInt32:
			return binary.BigEndian.AppendUint32(append(b, 0xd2), uint32(x))
		}
		return binary.BigEndian.AppendUint64(append(b, 0xd3), uint64(x))
	case uint64:
		return binary.BigEndian.AppendUint64(append(b, 0xcf), x)
	case float64:
		if r.N(2) == 0 {
			return binary.BigEndian.AppendUint32(append(b, 0xca), math.Float32bits(float32(x)))
		}
		return binary.BigEndian.AppendUint64(append(b, 0xcb), math.Float64bits(x))
	case string:
		return append(head(b, 0xa0, 32, 0xd9, 0xda, 0xdb, len(x)), x...)
	case []byte:
		return append(head(b, 0, 0, 0xc4, 0xc5, 0xc6, len(x)), x...)
	case []any:
		b = head(b, 0x90, 16, 0, 0xdc, 0xdd, len(x))
		for _, e := range x {
			b = evilMsgPack(b, e, r)
		}
		return b
	case map[any]any:
		b = head(b, 0x80, 16, 0, 0xde, 0xdf, len(x))
		for _, k := range sortedAny(x) {
			b = evilMsgPack(b, k, r)
			b = evilMsgPack(b, x[k], r)
		}
		return b
	}
	return append(b, 0xc0)
}

// evilBlob are bytes that promise much or nest deeply.
func evilBlob(kind int, r *rt.PRNG) []byte {
	n := []int{5, 40, 1000, 9999, 10001, 70000, 300000}[r.N(7)]
	if r.N(40) == 0 {
		n = 1500000
	}
	start, end, whole := []byte{}, []byte{}, r.N(2) == 0
	if r.N(2) == 0 { // at an argument's place in a message
		start = [][]byte{[]byte(`[48,1,{},"a",`), {0x85, 0x18, 48, 1, 0xa0, 0x61, 'a'}, {0x95, 48, 1, 0x80, 0xa1, 'a'}}[map[int]int{serJSON: 0, serCBOR: 1, serMsgPack: 2}[kind]]
	}
	if len(start) > 0 {
		end = [][]byte{[]byte(",{}]"), {0xa0}, {0x80}}[map[int]int{serJSON: 0, serCBOR: 1, serMsgPack: 2}[kind]]
	}
	rep := func(s string) []byte { return append(start, strings.Repeat(s, n)...) }
	nest := func(s, inner, close string) []byte { // all of it, or as far as it nests
		b := rep(s)
		if whole {
			b = append(append(append(b, inner...), strings.Repeat(close, n)...), end...)
		}
		return b
	}
	switch kind {
	case serCBOR:
		switch r.N(6) {
		case 0:
			return nest("\x81", "\xf6", "")
		case 1:
			return nest("\xa1\x61a", "\xf6", "")
		case 2:
			return nest("\x9f", "", "\xff")
		case 3:
			return nest("\xc0", "\x60", "")
		case 4:
			return append(start, 0x9b, 0, 0, 0, byte(r.N(2)), byte(r.U64()), byte(r.U64()), 0xff, 0xff)
		}
		return append(start, []byte{0x5a, 0x7a, 0xba, 0x9a}[r.N(4)], byte(r.U64()), 0xff, 0xff, 0xff)
	case serMsgPack:
		switch r.N(6) {
		case 0:
			return nest("\x91", "\xc0", "")
		case 1:
			return nest("\x81\xa1a", "\xc0", "")
		case 2:
			return nest("\xdc\x00\x01", "\xc0", "")
		case 3:
			return append(start, []byte{0xdd, 0xdf}[r.N(2)], byte(r.U64()), 0xff, 0xff, 0xff)
		case 4:
			return append(start, []byte{0xc6, 0xdb, 0xc9}[r.N(3)], byte(r.U64()), 0xff, 0xff, 0xff)
		}
		return rep("\xdd\x00\x01\x00\x00")
	}
	switch r.N(4) {
	case 0:
		return nest("[", "", "]")
	case 1:
		return nest(`{"a":`, "1", "}")
	case 2:
		return append(start, `"`+strings.Repeat(`\u0000`, min(n, 20000))+`"]`...)
	}
	return append(start, strings.Repeat("9", min(n, 20000))+"]"...)
}

func evilMutate(b []byte, r *rt.PRNG) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + r.N(4); k > 0; k-- {
		if len(b) == 0 {
			return []byte{byte(r.U64())}
		}
		i := r.N(len(b))
		switch r.N(7) {
		case 0:
			b[i] ^= 1 << r.N(8)
		case 1:
			b[i] = byte(r.U64())
		case 2:
			b = b[:i]
		case 3:
			b = append(b[:i], append([]byte{byte(r.U64())}, b[i:]...)...)
		case 4:
			b = append(b[:i], b[i+1:]...)
		case 5:
			j := i + r.N(len(b)-i)
			b = append(b, b[i:j]...)
		case 6:
			b[i] = []byte{0, 0x7f, 0x80, 0xff, 0x9f, 0xdd, 0xdf, 0xc6}[r.N(8)]
		}
	}
	return b
}

// ---------------------------------------------------------------- the simulation

const (
	evilCallee    = 11
	evilCaller    = 12
	evilPublisher = 13
)

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func heapAllocs() uint64 {
	metrics.Read(allocSample)
	if allocSample[0].Value.Kind() != metrics.KindUint64 {
		return 0
	}
	return allocSample[0].Value.Uint64()
}

var stackSample = []metrics.Sample{{Name: "/memory/classes/heap/stacks:bytes"}}

func stackBytes() uint64 {
	metrics.Read(stackSample)
	if stackSample[0].Value.Kind() != metrics.KindUint64 {
		return 0
	}
	return stackSample[0].Value.Uint64()
}

var addressCapped bool

// capMemory makes an absurd allocation the end of this process instead of the sandbox.
func capMemory() {
	if addressCapped {
		return
	}
	addressCapped = true
	lim := syscall.Rlimit{Cur: evilAddressCap, Max: evilAddressCap}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
}

type evilSim struct {
	*ctx
	p      *Plan
	dealer *wampproto.Dealer
	broker *wampproto.Broker
	reqs   uint64
	regID  uint64
	subID  uint64
	invID  uint64 // of the honest call that is open
	callID uint64
	word   string
	evil   map[uint64]bool
	client *wampproto.Session
}

func runHostile(p *Plan, trace bool) *Result {
	capMemory()
	w := &evilSim{ctx: newCtx(p.Prop, trace), p: p, evil: map[uint64]bool{}}
	rt.SeedRand(rt.Mix(p.Seed, 1))
	rt.SeedMaps(rt.Mix(p.Seed, 2))
	rt.SeedEntropy(rt.Mix(p.Seed, 3))
	rt.SetClock(1_700_000_000_000_000_000, nil)
	rt.SingleTask(true)
	defer func() { rt.Entropy = nil; rt.SingleTask(false) }()
	w.dealer, w.broker = wampproto.NewDealer(), wampproto.NewBroker()
	for _, id := range []uint64{evilCallee, evilCaller, evilPublisher, 21, 22} {
		w.dealer.AddSession(sessDetails(id))
		w.broker.AddSession(sessDetails(id))
	}
	w.client = wampproto.NewSession(serializerOf(p.cfg("ser")))
	if !w.honestSetup() {
		return w.done()
	}
	for _, s := range p.Steps {
		if w.failed() {
			break
		}
		w.now = s.At
		w.step(s)
		if s.F&1 != 0 && !w.failed() {
			w.probe()
		}
	}
	if !w.failed() {
		w.probe()
	}
	return w.done()
}

func (w *evilSim) req() uint64 { w.reqs++; return w.reqs }

func (w *evilSim) broken(what string, format string, args ...any) {
	w.violate("C21", what, format, args...)
}

func (w *evilSim) honestSetup() bool {
	crash := protect(func() {
		out, err := w.dealer.ReceiveMessage(evilCallee, messages.NewRegister(w.req(), nil, "com.honest.proc"))
		if err == nil && out != nil {
			if m, ok := out.Message.(*messages.Registered); ok {
				w.regID = m.RegistrationID()
			}
		}
		out, err = w.broker.ReceiveMessage(evilCaller, messages.NewSubscribe(w.req(), nil, "com.honest.topic"))
		if err == nil && out != nil {
			if m, ok := out.Message.(*messages.Subscribed); ok {
				w.subID = m.SubscriptionID()
			}
		}
		w.client.SendMessage(messages.NewCall(1, nil, "a", nil, nil))
		w.client.SendMessage(messages.NewSubscribe(2, nil, "a"))
		w.client.SendMessage(messages.NewRegister(3, nil, "a"))
		w.client.ReceiveMessage(messages.NewSubscribed(2, 7))
		w.client.ReceiveMessage(messages.NewRegistered(3, 8))
	})
	if crash != "" || w.regID == 0 || w.subID == 0 {
		w.broken("setup", "honest sessions cannot register and subscribe: %s", crash)
		return false
	}
	return w.openCall()
}

// openCall has the honest caller call the honest callee; the answer comes later.
func (w *evilSim) openCall() bool {
	w.callID = w.req()
	w.word = fmt.Sprintf("word-%d", w.callID)
	var out *wampproto.MessageWithRecipient
	var err error
	crash := protect(func() {
		out, err = w.dealer.ReceiveMessage(evilCaller, messages.NewCall(w.callID, nil, "com.honest.proc", []any{w.word}, nil))
	})
	w.check("C21")
	if crash != "" {
		w.broken("honest-call-crash", "an honest call crashes the router: %s", crash)
		return false
	}
	if err != nil || out == nil {
		w.broken("honest-call-refused", "an honest call gets no invocation: %v", err)
		return false
	}
	inv, ok := out.Message.(*messages.Invocation)
	if !ok || out.Recipient != evilCallee || inv.RegistrationID() != w.regID || norm(inv.Args()) != norm([]any{w.word}) {
		w.broken("honest-call-misrouted", "an honest call becomes %s to session %d", canonical(out.Message), out.Recipient)
		return false
	}
	w.invID = inv.RequestID()
	return true
}

// probe: the honest sessions' business works as if the attacker were not there.
func (w *evilSim) probe() {
	var out *wampproto.MessageWithRecipient
	var err error
	crash := protect(func() {
		out, err = w.dealer.ReceiveMessage(evilCallee, messages.NewYield(w.invID, nil, []any{"re " + w.word}, nil))
	})
	w.check("C21")
	if crash != "" {
		w.broken("honest-call-crash", "an honest result crashes the router: %s", crash)
		return
	}
	if err != nil || out == nil {
		w.broken("honest-call-lost", "the honest callee's result is refused: %v", err)
		return
	}
	res, ok := out.Message.(*messages.Result)
	if !ok || out.Recipient != evilCaller || res.RequestID() != w.callID || norm(res.Args()) != norm([]any{"re " + w.word}) {
		w.broken("honest-call-misrouted", "an honest result becomes %s to session %d", canonical(out.Message), out.Recipient)
		return
	}
	if !w.openCall() {
		return
	}
	var pub *wampproto.Publication
	id := w.req()
	crash = protect(func() {
		pub, err = w.broker.ReceivePublish(evilPublisher, messages.NewPublish(id, map[string]any{"acknowledge": true}, "com.honest.topic", []any{w.word}, nil))
	})
	w.check("C21")
	if crash != "" {
		w.broken("honest-event-crash", "an honest publication crashes the router: %s", crash)
		return
	}
	if err != nil || pub == nil || pub.Event == nil || pub.Ack == nil {
		w.broken("honest-event-lost", "an honest publication fails: %v", err)
		return
	}
	n := 0
	for _, to := range pub.Recipients {
		if to == evilCaller {
			n++
		} else if !w.evil[to] {
			w.broken("honest-event-misrouted", "an honest publication goes to session %d", to)
			return
		}
	}
	if n != 1 || pub.Event.SubscriptionID() != w.subID || norm(pub.Event.Args()) != norm([]any{w.word}) || pub.Ack.Recipient != evilPublisher {
		w.broken("honest-event-misrouted", "an honest publication reaches its subscriber %d times as %s", n, canonical(pub.Event))
		return
	}
	var has bool
	if crash = protect(func() { has = w.dealer.HasProcedure("com.honest.proc") && w.broker.HasSubscription("com.honest.topic") }); crash != "" || !has {
		w.broken("honest-hold-lost", "the honest registration or subscription is gone %s", crash)
	}
}

// bytes makes the bytes of a step.
func (w *evilSim) bytes(s Step, r *rt.PRNG, kind int, template []any) []byte {
	if s.B == 3 {
		return evilBlob(kind, r)
	}
	var list []any
	if s.B == 1 || template == nil {
		codes := []int64{1, 2, 3, 4, 5, 6, 8, 16, 17, 32, 33, 34, 35, 36, 48, 49, 50, 64, 65, 66, 67, 68, 69, 70, 0, 7, 99, -1, 1 << 40}
		list = append(list, codes[r.N(len(codes))])
		for n := r.N(8); n > 0; n-- {
			list = append(list, evilValue(r, 3))
		}
	} else {
		list = plain(template).([]any)
		for k := r.N(3); k > 0; k-- {
			switch r.N(6) {
			case 0:
				list = list[:r.N(len(list)+1)]
			case 1:
				list = append(list, evilValue(r, 3))
			default:
				if len(list) > 1 {
					list[1+r.N(len(list)-1)] = evilValue(r, 3)
				}
			}
			if len(list) == 0 {
				break
			}
		}
		// known option names with values of the wrong type
		for i := range list {
			if m, ok := list[i].(map[any]any); ok && r.N(2) == 0 {
				for k := r.N(3); k > 0; k-- {
					m[evilKeys[r.N(len(evilKeys))]] = evilValue(r, 2)
				}
			}
		}
	}
	var v any = list
	if r.N(40) == 0 {
		v = evilValue(r, 3)
	}
	data := evilEncode(kind, v, r)
	if s.B == 2 {
		data = evilMutate(data, r)
	}
	return data
}

func (w *evilSim) measured(what string, data []byte, f func()) bool {
	before, stack := heapAllocs(), uint64(0)
	var crash string
	if len(data) < 20000 {
		crash = protect(f)
	} else { // the stack it needs counts as well, it starts with a small one
		done := make(chan struct{})
		go func() {
			defer close(done)
			runtime.GC() // what is measured must not depend on when one happens
			defer debug.SetGCPercent(debug.SetGCPercent(-1))
			was := stackBytes()
			crash = protect(f)
			if is := stackBytes(); is > was {
				stack = is - was
			}
		}()
		<-done
	}
	used := heapAllocs() - before + stack
	w.check("C21")
	if crash != "" {
		w.broken("crash", "%s crashes on %s: %s", what, hexOf(data), crash)
		return false
	}
	if stack > evilStack {
		w.broken("memory", "%s needs %d MB of stack for the %d bytes %s", what, stack>>20, len(data), hexOf(data))
		return false
	}
	if limit := uint64(evilAllocBase + evilAllocFactor*len(data)); used > limit {
		w.broken("memory", "%s uses more than %d MB for the %d bytes %s", what, limit>>20, len(data), hexOf(data))
		return false
	}
	return true
}

func hexOf(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%x... (%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func (w *evilSim) step(s Step) {
	r := rt.NewPRNG(rt.Mix(w.p.Seed^0xe71, uint64(s.I)))
	kind := s.A % 3
	ser := serializerOf(kind)
	w.count("fault:hostile-bytes-to-" + s.Op)
	switch s.Op {
	case "router":
		from := uint64(21 + s.C%3) // 23 is not attached
		var tmpl []any
		tmpl = w.template(s, &r)
		data := w.bytes(s, &r, kind, tmpl)
		var msg messages.Message
		var err error
		if !w.measured("decoding by the router", data, func() { msg, err = ser.Deserialize(data) }) {
			return
		}
		w.event(fmt.Sprintf("%d sends %s error=%v", from, hexOf(data), err != nil))
		if err != nil || msg == nil {
			return
		}
		w.count("hostile-messages-decoded")
		w.evil[from] = true
		var outs []messages.Message
		ok := w.measured(fmt.Sprintf("the router on %s of session %d", typeName(msg), from), data, func() {
			switch m := msg.(type) {
			case *messages.Publish:
				p, err := w.broker.ReceivePublish(from, m)
				if err == nil && p != nil {
					if p.Event != nil {
						outs = append(outs, p.Event)
					}
					if p.Ack != nil {
						outs = append(outs, p.Ack.Message)
					}
				}
			case *messages.Subscribe, *messages.Unsubscribe:
				out, err := w.broker.ReceiveMessage(from, msg)
				if err == nil && out != nil {
					outs = append(outs, out.Message)
				}
			default:
				out, err := w.dealer.ReceiveMessage(from, msg)
				if err == nil && out != nil {
					outs = append(outs, out.Message)
				}
			}
			msg.Marshal()
		})
		if !ok {
			return
		}
		for _, m := range outs {
			w.event("=> " + typeName(m))
			for k := 0; k < 3; k++ {
				if !w.measured("encoding "+typeName(m)+" for the recipient", data, func() { serializerOf(k).Serialize(m) }) {
					return
				}
			}
		}
	case "client":
		m := clientMessage(Step{Op: "recv", A: r.N(12), B: r.N(3), D: r.N(9), F: r.N(8)}, &r)
		kind = w.p.cfg("ser")
		data := w.bytes(s, &r, kind, m.Marshal())
		var err error
		w.measured("the client", data, func() { _, err = w.client.Receive(data) })
		w.event(fmt.Sprintf("client gets %s error=%v", hexOf(data), err != nil))
	case "acceptor":
		acc := wampproto.NewAcceptor(ser, freshDB{authUser{id: "alice", role: "r", secret: "s", iters: 1, keylen: 32}})
		method := []string{"anonymous", "ticket", "wampcra", "cryptosign"}[r.N(4)]
		hello := messages.NewHello("realm1", "alice", map[string]any{"pubkey": strings.Repeat("ab", 32)}, map[string]any{}, []string{method})
		if s.D > 0 { // after a proper HELLO
			if crash := protect(func() { acc.ReceiveMessage(hello) }); crash != "" {
				w.broken("crash", "the acceptor crashes on a HELLO: %s", crash)
				return
			}
		}
		var tmpl []any
		switch s.D % 3 {
		case 0:
			tmpl = hello.Marshal()
		case 1:
			tmpl = messages.NewAuthenticate("aa", map[string]any{}).Marshal()
		case 2:
			tmpl = messages.NewAuthenticate(strings.Repeat("ab", []int{32, 64, 96}[r.N(3)]), map[string]any{}).Marshal()
		}
		data := w.bytes(s, &r, kind, tmpl)
		var err error
		w.measured("the acceptor", data, func() { _, _, err = acc.Receive(data) })
		w.event(fmt.Sprintf("acceptor gets %s error=%v", hexOf(data), err != nil))
	case "joiner":
		var a auth.ClientAuthenticator
		var err error
		method := r.N(4)
		switch method {
		case 0:
			a = auth.NewAnonymousAuthenticator("alice", nil)
		case 1:
			a = auth.NewTicketAuthenticator("alice", "t", nil)
		case 2:
			a = auth.NewWAMPCRAAuthenticator("alice", "secret", nil)
		default:
			a, err = auth.NewCryptoSignAuthenticator("alice", strings.Repeat("ab", 32), nil)
		}
		if err != nil {
			return
		}
		j := wampproto.NewJoiner("realm1", ser, a)
		if s.D%3 > 0 {
			if crash := protect(func() { j.SendHello() }); crash != "" {
				w.broken("crash", "SendHello crashes: %s", crash)
				return
			}
		}
		methodName := a.AuthMethod()
		extra := map[string]any{"challenge": strings.Repeat("cd", 32)}
		if r.N(2) == 0 {
			extra["salt"], extra["iterations"], extra["keylen"] = "salt", 10, 32
		}
		tmpl := messages.NewChallenge(methodName, extra).Marshal()
		if s.D%3 == 2 {
			tmpl = messages.NewWelcome(7, map[string]any{"authid": "alice", "authrole": "r"}).Marshal()
		}
		data := w.bytes(s, &r, kind, tmpl)
		if costly(ser, data) {
			return
		}
		w.measured("the joiner", data, func() { _, err = j.Receive(data) })
		w.event(fmt.Sprintf("joiner gets %s error=%v", hexOf(data), err != nil))
	case "payload":
		v := any([]any{evilValue(&r, 3), evilValue(&r, 3)}[:min(2, r.N(6))])
		data := evilEncode(kind, v, &r)
		if s.B == 2 {
			data = evilMutate(data, &r)
		} else if s.B == 3 {
			data = evilBlob(kind, &r)
		}
		id := uint64([]int{1, 2, 3, 0, 4, 99}[r.N(6)])
		var err error
		w.measured("decoding a binary payload", data, func() { _, _, err = serializers.DeserializePayload(id, data) })
		w.event(fmt.Sprintf("payload %d %s error=%v", id, hexOf(data), err != nil))
		if kind == serCBOR {
			w.measured("decoding a CBOR payload", data, func() { _, _, err = serializers.DecodeCBOR(data) })
			w.event(fmt.Sprintf("cbor payload error=%v", err != nil))
		}
	case "raw":
		data := make([]byte, r.N(12))
		for i := range data {
			data[i] = byte(r.U64())
		}
		w.measured("the rawsocket reader", data, func() {
			transports.ReceiveHandshake(data)
			if h, err := transports.ReceiveMessageHeader(data); err == nil && (h.Length() < 0 || h.Length() > rawMaxFrame) {
				panic(fmt.Sprintf("a frame of %d bytes", h.Length()))
			}
		})
		w.event("raw " + hexOf(data))
	}
}

// costly tells whether a challenge asks for so many iterations that the run would take minutes.
func costly(ser serializers.Serializer, data []byte) (yes bool) {
	defer func() {
		if recover() != nil {
			yes = false
		}
	}()
	m, err := ser.Deserialize(data)
	if err != nil {
		return false
	}
	ch, ok := m.(*messages.Challenge)
	if !ok {
		return false
	}
	switch x := ch.Extra()["iterations"].(type) {
	case nil:
		return false
	default:
		s := norm(x)
		return len(s) > 5
	}
}

// template is a valid message of the attacker, aimed at what the honest sessions hold.
func (w *evilSim) template(s Step, r *rt.PRNG) []any {
	id := uint64(1 + r.N(6))
	uri := []string{"com.honest.proc", "com.honest.topic", "evil.a", "evil.b", "com.", "com.honest.*"}[r.N(6)]
	opts := map[string]any{}
	if r.N(3) == 0 {
		opts["match"] = []string{"exact", "prefix", "wildcard", "x"}[r.N(4)]
	}
	if r.N(3) == 0 {
		opts["invoke"] = []string{"single", "roundrobin", "first", "last", "random", "x"}[r.N(6)]
	}
	if r.N(3) == 0 {
		opts["progress"] = r.N(2) == 0
	}
	if r.N(3) == 0 {
		opts["receive_progress"] = r.N(2) == 0
	}
	if r.N(3) == 0 {
		opts["exclude_me"] = r.N(2) == 0
	}
	inv := w.invID
	if r.N(3) == 0 {
		inv = uint64(r.N(20))
	}
	args, kwargs := simplePayload(r)
	switch s.D % 10 {
	case 0:
		return messages.NewRegister(id, opts, uri).Marshal()
	case 1:
		return messages.NewUnregister(id, []uint64{w.regID, uint64(r.N(9))}[r.N(2)]).Marshal()
	case 2:
		return messages.NewCall(id, opts, uri, args, kwargs).Marshal()
	case 3:
		return messages.NewYield(inv, opts, args, kwargs).Marshal()
	case 4:
		return messages.NewError(messages.MessageTypeInvocation, inv, nil, "evil.error", args, kwargs).Marshal()
	case 5:
		return messages.NewSubscribe(id, opts, uri).Marshal()
	case 6:
		return messages.NewUnsubscribe(id, []uint64{w.subID, uint64(r.N(9))}[r.N(2)]).Marshal()
	case 7:
		return messages.NewPublish(id, opts, uri, args, kwargs).Marshal()
	case 8:
		return messages.NewCancel(w.callID, opts).Marshal()
	}
	return messages.NewGoodBye("wamp.close.normal", map[string]any{}).Marshal()
}

func genHostile(prop string, seed uint64, tier string) *Plan {
	r := rt.NewPRNG(rt.Mix(seed, 0xe7))
	p := &Plan{Prop: prop, Engine: "hostile", Seed: seed, Cfg: map[string]int{"ser": r.N(3)}}
	n := 5 + r.N(40)
	for i := 0; i < n; i++ {
		s := Step{I: i, At: int64(i), A: r.N(3), C: r.N(7), B: []int{0, 0, 0, 1, 1, 2, 2, 2}[r.N(8)], D: r.N(30)}
		if r.N(40) == 0 {
			s.B = 3
		}
		s.Op = []string{"router", "router", "router", "router", "client", "acceptor", "joiner", "payload", "raw"}[r.N(9)]
		if s.Op == "acceptor" || s.Op == "joiner" {
			s.D = r.N(3)
		}
		if r.N(4) == 0 {
			s.F = 1
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

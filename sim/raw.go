package main

import (
	"bytes"
	"container/heap"
	"fmt"
	"math"

	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
	rt "github.com/xconnio/wampproto-go/zzsimrt"
)

// The rawsocket engine: a client and a router speak the rawsocket transport
// over a simulated TCP connection that delivers bytes in order, in pieces of
// any size, after any delay, until it is cut. Either end may be another
// implementation, which makes and reads the bytes by the specification alone.

const (
	rawMaxFrame = 1<<24 - 1
)

// reference encoders and decoders, from the WAMP specification.
func refHandshake(ser, log2 int) []byte {
	return []byte{0x7F, byte((log2-9)<<4 | ser), 0, 0}
}

func refHeader(kind, n int) []byte {
	return []byte{byte(kind), byte(n >> 16), byte(n >> 8), byte(n)}
}

type rawFrame struct {
	kind int
	data []byte
	msg  messages.Message
	s    Step
}

type rawEnd struct {
	name    string
	foreign bool // another implementation
	buf     []byte
	state   int // 0 waits for handshake, 1 open, 2 closed
	ser     int
	max     int
	sent    []rawFrame // what this end sent
	got     int        // how many of the other's frames arrived
}

type rawSim struct {
	*ctx
	p   *Plan
	q   eventQueue
	n   int
	cut bool
	cl  *rawEnd
	sv  *rawEnd
	// what the other side of each end really said
	reply  []byte
	busyUp int64
	busyDn int64
}

func (w *rawSim) at(t int64, f func()) {
	if t < w.now {
		t = w.now
	}
	w.n++
	heap.Push(&w.q, event{at: t, seq: uint64(w.n), f: f})
}

func runRaw(p *Plan, trace bool) *Result {
	w := &rawSim{ctx: newCtx(p.Prop, trace), p: p}
	rt.SeedRand(rt.Mix(p.Seed, 1))
	rt.SetClock(1_700_000_000_000_000_000, nil)
	rt.SingleTask(true)
	defer rt.SingleTask(false)
	w.reset()
	for _, s := range p.Steps {
		s := s
		w.at(s.At, func() { w.step(s) })
	}
	for w.q.Len() > 0 && !w.failed() {
		e := heap.Pop(&w.q).(event)
		w.now = e.at
		e.f()
	}
	if !w.failed() {
		w.finish()
	}
	return w.done()
}

func (w *rawSim) reset() {
	w.cl = &rawEnd{name: "client", foreign: w.p.cfg("foreign") == 1}
	w.sv = &rawEnd{name: "router", foreign: w.p.cfg("foreign") == 2}
	w.cut, w.reply = false, nil
	w.busyUp, w.busyDn = w.now, w.now
}

func (w *rawSim) step(s Step) {
	switch s.Op {
	case "open":
		w.finish()
		if w.failed() {
			return
		}
		w.reset()
		w.open(s)
	case "frame":
		w.frame(s)
	case "cut":
		if !w.cut {
			w.count("fault:connection-cut")
			w.cut = true
			w.finish()
		}
	case "size":
		w.badSize(s)
	case "garble":
		w.garble(s)
	case "short":
		w.shortHeader(s)
	case "torn":
		w.torn(s)
	}
}

// handshake makes an end's handshake bytes.
func (w *rawSim) handshake(e *rawEnd, ser, log2 int) []byte {
	want := refHandshake(ser, log2)
	if e.foreign {
		return want
	}
	var out []byte
	var err error
	if crash := protect(func() {
		out, err = transports.SendHandshake(transports.NewHandshake(rawNames[ser], 1<<log2))
	}); crash != "" {
		w.violate("C22", "crash", "SendHandshake crashes: %s", crash)
		return want
	}
	w.check("C22")
	if err != nil || !bytes.Equal(out, want) {
		w.violate("C22", "handshake-wrong", "the handshake for serializer %d and 2^%d bytes is %x (%v), the specification says %x", ser, log2, out, err, want)
		return want
	}
	return out
}

// understand has an end read the other's handshake, which says ser and log2 (or ser 0: a refusal).
func (w *rawSim) understand(e *rawEnd, data []byte, ser, log2 int) bool {
	if e.foreign {
		return ser != 0
	}
	var hs *transports.Handshake
	var err error
	if crash := protect(func() { hs, err = transports.ReceiveHandshake(data) }); crash != "" {
		w.violate("C22", "crash", "ReceiveHandshake of %x crashes: %s", data, crash)
		return false
	}
	w.check("C22")
	w.event(fmt.Sprintf("%s reads handshake %x error=%v", e.name, data, err != nil))
	if ser == 0 {
		if err == nil {
			w.violate("C22", "refusal-taken-as-accepted", "the refusal %x is taken for a handshake (serializer %d, %d bytes)", data, hs.Serializer(), hs.MaxMessageSize())
		}
		return false
	}
	if err != nil || hs == nil {
		w.violate("C22", "handshake-refused", "the valid handshake %x is refused: %v", data, err)
		return false
	}
	if hs.Serializer() != rawNames[ser] || hs.MaxMessageSize() != 1<<log2 {
		w.violate("C22", "handshake-misread", "handshake %x says serializer %d and 2^%d bytes, it is read as %d and %d bytes", data, ser, log2, hs.Serializer(), hs.MaxMessageSize())
		return false
	}
	return true
}

func (w *rawSim) open(s Step) {
	ser, log2 := 1+s.A%3, 9+s.B%16
	back := 9 + s.D%16
	cl, sv := w.cl, w.sv
	hello := w.handshake(cl, ser, log2)
	cl.ser, cl.max = ser, 1<<back
	sv.ser, sv.max = ser, 1<<log2 // what the client accepts
	refuse := s.F & 15
	w.pieces(s.I, hello, &w.busyUp, sv, func() {
		if len(sv.buf) < 4 || sv.state != 0 {
			return
		}
		data := append([]byte(nil), sv.buf[:4]...)
		sv.buf = sv.buf[4:]
		if !w.understand(sv, data, ser, log2) {
			sv.state = 2
			return
		}
		var answer []byte
		if refuse != 0 {
			// the router does not want this client: an error code and serializer 0
			answer = []byte{0x7F, byte(refuse << 4), 0, 0}
			sv.state = 2
			w.count("fault:handshake-refused")
		} else {
			answer = w.handshake(sv, ser, back)
			sv.state = 1
		}
		w.pieces(s.I+100000, answer, &w.busyDn, cl, func() {
			if cl.state != 0 {
				w.drain(cl)
				return
			}
			if len(cl.buf) < 4 {
				return
			}
			data := append([]byte(nil), cl.buf[:4]...)
			cl.buf = cl.buf[4:]
			says := ser
			if refuse != 0 {
				says = 0
			}
			if w.understand(cl, data, says, back) {
				cl.state = 1
				w.drain(cl)
			} else {
				cl.state = 2
			}
		})
	})
}

// pieces delivers bytes in order, after delays, in segments.
func (w *rawSim) pieces(step int, data []byte, busy *int64, to *rawEnd, arrived func()) {
	r := rt.NewPRNG(rt.Mix(w.p.Seed^0x9e3, uint64(step)))
	t := *busy
	if t < w.now {
		t = w.now
	}
	t += int64(r.N(200))
	segment := w.p.cfg("seg") == 1
	if segment {
		w.count("fault:segmented-delivery")
	}
	cl := w.cl // the connection this belongs to
	for {
		n := len(data)
		if segment && n > 0 {
			switch r.N(3) {
			case 0:
				n = 1 + r.N(min(n, 5))
			case 1:
				n = 1 + r.N(n)
			}
		}
		piece := data[:n]
		data = data[n:]
		w.at(t, func() {
			if w.cut || w.cl != cl {
				return
			}
			to.buf = append(to.buf, piece...)
			arrived()
		})
		if len(data) == 0 {
			break
		}
		t += int64(r.N(4))
	}
	*busy = t
}

var rawSizes = []int{0, 1, 2, 3, 4, 127, 128, 255, 256, 257, 511, 512, 513, 4095, 65535, 65536, 65537, 70000}

func (w *rawSim) frame(s Step) {
	from, to, busy := w.cl, w.sv, &w.busyUp
	if s.C == 1 {
		from, to, busy = w.sv, w.cl, &w.busyDn
	}
	if from.state != 1 || w.cut {
		return
	}
	r := rt.NewPRNG(rt.Mix(w.p.Seed^0xf7a, uint64(s.I)))
	f := rawFrame{kind: s.A % 3, s: s}
	if f.kind == 0 && s.B == 0 {
		f.msg = clientMessage(Step{Op: []string{"send", "recv"}[s.C], A: r.N(9), B: r.N(100), D: r.N(5), F: r.N(8)}, &r)
		data, err := rawSerializer(from.ser).Serialize(f.msg)
		if err != nil {
			return
		}
		f.data = data
	} else {
		n := rawSizes[s.D%len(rawSizes)]
		if s.F&1 != 0 {
			n = from.max // the largest that the receiver accepts
			if n > rawMaxFrame {
				n = rawMaxFrame
			}
			if n > 1<<17 && s.F&2 == 0 {
				n = 1 << 17
			}
		}
		f.data = make([]byte, n)
		for i := 0; i < n && i < 64; i++ {
			f.data[i] = byte(r.U64())
		}
		if n > 0 {
			f.data[n-1] = byte(r.U64())
		}
	}
	if len(f.data) > from.max || len(f.data) > rawMaxFrame {
		return
	}
	head := refHeader(f.kind, len(f.data))
	if !from.foreign {
		var out []byte
		if crash := protect(func() {
			out = transports.SendMessageHeader(transports.NewMessageHeader(rawKinds[f.kind], len(f.data)))
		}); crash != "" {
			w.violate("C22", "crash", "SendMessageHeader crashes: %s", crash)
			return
		}
		w.check("C22")
		if !bytes.Equal(out, head) {
			w.violate("C22", "header-wrong", "the header of a frame of kind %d and %d bytes is %x, the specification says %x", f.kind, len(f.data), out, head)
			return
		}
	}
	from.sent = append(from.sent, f)
	w.event(fmt.Sprintf("%s sends kind %d, %d bytes", from.name, f.kind, len(f.data)))
	w.pieces(s.I, append(append([]byte(nil), head...), f.data...), busy, to, func() { w.drain(to) })
}

func (w *rawSim) other(e *rawEnd) *rawEnd {
	if e == w.cl {
		return w.sv
	}
	return w.cl
}

// drain has an end take whole frames off what has arrived.
func (w *rawSim) drain(e *rawEnd) {
	for e.state == 1 && len(e.buf) >= 4 && !w.failed() {
		var kind, n int
		if e.foreign {
			kind, n = int(e.buf[0]), int(e.buf[1])<<16|int(e.buf[2])<<8|int(e.buf[3])
		} else {
			var h *transports.MessageHeader
			var err error
			if crash := protect(func() { h, err = transports.ReceiveMessageHeader(append([]byte(nil), e.buf[:4]...)) }); crash != "" {
				w.violate("C22", "crash", "ReceiveMessageHeader of %x crashes: %s", e.buf[:4], crash)
				return
			}
			w.check("C22")
			if err != nil {
				w.violate("C22", "bad-header", "the header %x is not understood: %v", e.buf[:4], err)
				return
			}
			kind, n = -1, h.Length()
			for i, k := range rawKinds {
				if k == h.Kind() {
					kind = i
				}
			}
		}
		o := w.other(e)
		if e.got >= len(o.sent) {
			w.violate("C22", "frame-invented", "%s reads a frame header (kind %d, %d bytes) that was never sent", e.name, kind, n)
			return
		}
		f := o.sent[e.got]
		if kind != f.kind || n != len(f.data) {
			w.violate("C22", "header-misread", "%s sent kind %d with %d bytes, the header is read as kind %d with %d bytes", o.name, f.kind, len(f.data), kind, n)
			return
		}
		if len(e.buf) < 4+n {
			return
		}
		body := e.buf[4 : 4+n]
		w.check("C22")
		if !bytes.Equal(body, f.data) {
			w.violate("C22", "frame-altered", "frame %d of %s arrives with other bytes", e.got, o.name)
			return
		}
		if f.msg != nil && !e.foreign {
			var m messages.Message
			var err error
			if crash := protect(func() { m, err = rawSerializer(e.ser).Deserialize(append([]byte(nil), body...)) }); crash != "" {
				w.violate("C22", "crash", "decoding %x crashes: %s", body, crash)
				return
			}
			if err != nil || norm(m.Marshal()) != norm(f.msg.Marshal()) {
				w.violate("C22", "message-altered", "%s sent as frame %d arrives as error %v", typeName(f.msg), e.got, err)
				return
			}
		}
		w.event(fmt.Sprintf("%s takes frame %d", e.name, e.got))
		e.got++
		e.buf = append([]byte(nil), e.buf[4+n:]...)
	}
}

// finish judges the connection when it is over.
func (w *rawSim) finish() {
	for _, e := range []*rawEnd{w.cl, w.sv} {
		o := w.other(e)
		if !w.cut && o.state == 1 && e.state == 1 && e.got != len(o.sent) && w.q.Len() == 0 {
			w.violate("C22", "frame-lost", "%s sent %d frames, %d came out although the connection held", o.name, len(o.sent), e.got)
			return
		}
		if e.state == 1 && len(e.buf) > 4 && !e.foreign && e.got < len(o.sent) {
			// the rest of a frame that the cut left unfinished is never a message
			f := o.sent[e.got]
			if f.msg != nil && len(e.buf)-4 < len(f.data) {
				w.partial(e.ser, e.buf[4:], f)
			}
		}
	}
}

// partial hands the beginning of a message to the decoder.
func (w *rawSim) partial(ser int, data []byte, f rawFrame) {
	if _, isJSON := rawSerializer(ser).(*serializers.JSONSerializer); isJSON && len(data) >= len(bytes.TrimRight(f.data, " \t\r\n")) {
		return // nothing but blanks is missing
	}
	var m messages.Message
	var err error
	if crash := protect(func() { m, err = rawSerializer(ser).Deserialize(append([]byte(nil), data...)) }); crash != "" {
		w.violate("C22", "crash", "decoding the first %d of %d bytes of %s crashes: %s", len(data), len(f.data), typeName(f.msg), crash)
		return
	}
	w.check("C22")
	w.count("fault:torn-message")
	if err == nil {
		w.violate("C22", "torn-message-accepted", "the first %d of %d bytes of %s are taken for %s", len(data), len(f.data), norm(f.msg.Marshal()), norm(m.Marshal()))
	}
}

func (w *rawSim) torn(s Step) {
	r := rt.NewPRNG(rt.Mix(w.p.Seed^0x70b, uint64(s.I)))
	ser := 1 + s.A%3
	f := rawFrame{msg: clientMessage(Step{Op: []string{"send", "recv"}[s.B%2], A: r.N(9), B: r.N(100), D: r.N(5), F: r.N(8)}, &r)}
	data, err := rawSerializer(ser).Serialize(f.msg)
	if err != nil || len(data) == 0 {
		return
	}
	f.data = data
	w.partial(ser, data[:r.N(len(data))], f)
}

// badSize asks for a handshake with a size that the transport cannot express.
func (w *rawSim) badSize(s Step) {
	r := rt.NewPRNG(rt.Mix(w.p.Seed^0xbad, uint64(s.I)))
	var n int
	switch s.A % 10 {
	case 0:
		n = 1 << r.N(9)
	case 1:
		n = 1 << (25 + r.N(38))
	case 2:
		n = -1 << r.N(63)
	case 3:
		n = 0
	case 4:
		n = (1 << (9 + r.N(16))) + []int{-1, 1, 3}[r.N(3)]
	case 5:
		n = int(r.U64())
	case 6:
		n = math.MinInt64 + r.N(3)
	case 7:
		n = int(transports.DefaultMaxMsgSize)
	case 8:
		n = int(transports.ProtocolMaxMsgSize)
	default:
		n = r.N(1 << 25)
	}
	valid := s.A%10 == 7 || s.A%10 == 8
	for l := 9; l <= 24; l++ {
		valid = valid || n == 1<<l
	}
	var out []byte
	var err error
	if crash := protect(func() {
		out, err = transports.SendHandshake(transports.NewHandshake(transports.Serializer(1+s.B%3), n))
	}); crash != "" {
		w.violate("C22", "crash", "SendHandshake for %d bytes crashes: %s", n, crash)
		return
	}
	w.check("C22")
	w.event(fmt.Sprintf("size %d error=%v", n, err != nil))
	if valid != (err == nil) {
		w.violate("C22", "size-misjudged", "a handshake for %d bytes gives %x, error %v", n, out, err)
	}
}

// garble hands damaged or foreign bytes to the handshake reader.
func (w *rawSim) garble(s Step) {
	r := rt.NewPRNG(rt.Mix(w.p.Seed^0x6a2, uint64(s.I)))
	data := refHandshake(1+r.N(3), 9+r.N(16))
	switch s.A % 7 {
	case 6: // a serializer nobody has defined
		data[1] = byte(r.N(16)<<4 | 4 + r.N(12))
	case 0:
		data[0] = byte(r.U64())
	case 1:
		data[2+r.N(2)] = byte(1 + r.N(255))
	case 2:
		data = data[:r.N(4)]
	case 3:
		data = append(data, byte(r.U64()))
	case 4:
		for i := range data {
			data[i] = byte(r.U64())
		}
	case 5:
		data[1] = byte(r.U64()) & 0xF0
	}
	valid := len(data) == 4 && data[0] == 0x7F && data[2] == 0 && data[3] == 0 && data[1]&15 >= 1 && data[1]&15 <= 3
	reserved := len(data) == 4 && data[0] == 0x7F && data[2] == 0 && data[3] == 0 && data[1]&15 > 3
	var hs *transports.Handshake
	var err error
	if crash := protect(func() { hs, err = transports.ReceiveHandshake(data) }); crash != "" {
		w.violate("C22", "crash", "ReceiveHandshake of %x crashes: %s", data, crash)
		return
	}
	w.count("fault:garbled-handshake")
	w.check("C22")
	w.event(fmt.Sprintf("garbled %x error=%v", data, err != nil))
	if valid && (err != nil || hs.Serializer() != rawNames[int(data[1]&15)] || hs.MaxMessageSize() != 1<<(9+data[1]>>4)) {
		w.violate("C22", "handshake-misread", "the valid handshake %x is misread: %v", data, err)
	}
	if !valid && !reserved && err == nil {
		w.violate("C22", "garbled-handshake-accepted", "%x is taken for a handshake", data)
	}
	if reserved && err == nil && (hs.Serializer() == rawNames[1] || hs.Serializer() == rawNames[2] || hs.Serializer() == rawNames[3]) {
		w.violate("C22", "reserved-serializer", "%x asks for serializer %d, and is read as if it asked for %d", data, data[1]&15, hs.Serializer())
	}
}

// strangeHeader hands a header with reserved bits or of an undefined type to the reader.
func (w *rawSim) strangeHeader(s Step) {
	r := rt.NewPRNG(rt.Mix(w.p.Seed^0x5e1, uint64(s.I)))
	data := refHeader(3+r.N(253), r.N(1<<24))
	if r.N(2) == 0 {
		data[0] = byte(1+r.N(31))<<3 | byte(r.N(3))
	}
	var h *transports.MessageHeader
	var err error
	if crash := protect(func() { h, err = transports.ReceiveMessageHeader(append([]byte(nil), data...)) }); crash != "" {
		w.violate("C22", "crash", "ReceiveMessageHeader of %x crashes: %s", data, crash)
		return
	}
	w.check("C22")
	w.count("fault:undefined-frame-type")
	w.event(fmt.Sprintf("strange header %x error=%v", data, err != nil))
	if err != nil {
		return
	}
	for i, k := range rawKinds {
		if k == h.Kind() {
			w.violate("C22", "undefined-type-taken", "the frame header %x, whose first byte is undefined, is taken for kind %d with %d bytes", data, i, h.Length())
		}
	}
}

// shortHeader hands a header of another length than four bytes to the reader.
func (w *rawSim) shortHeader(s Step) {
	n := s.A % 9
	if n == 4 {
		w.strangeHeader(s)
		return
	}
	r := rt.NewPRNG(rt.Mix(w.p.Seed^0x54a, uint64(s.I)))
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(r.U64())
	}
	var err error
	if crash := protect(func() { _, err = transports.ReceiveMessageHeader(data) }); crash != "" {
		w.violate("C22", "crash", "ReceiveMessageHeader of %d bytes crashes: %s", n, crash)
		return
	}
	w.check("C22")
	w.count("fault:torn-header")
	if err == nil {
		w.violate("C22", "torn-header-accepted", "%d bytes are taken for a frame header", n)
	}
}

func genRaw(prop string, seed uint64, tier string) *Plan {
	r := rt.NewPRNG(rt.Mix(seed, 0x4a))
	p := &Plan{Prop: prop, Engine: "raw", Seed: seed, Cfg: map[string]int{"seg": r.N(3) / 2, "foreign": r.N(3)}}
	if r.N(2) == 0 {
		p.Cfg["seg"] = 1
	}
	var t int64
	add := func(s Step) {
		s.I, s.At = len(p.Steps), t
		p.Steps = append(p.Steps, s)
	}
	for conns := 1 + r.N(4); conns > 0; conns-- {
		s := Step{Op: "open", A: r.N(3), B: r.N(16), D: r.N(16)}
		if r.N(5) == 0 {
			s.F = 1 + r.N(15)
		}
		add(s)
		t += 1000
		for k := r.N(12); k > 0; k-- {
			t += int64(r.N(300))
			f := Step{Op: "frame", C: r.N(2), A: []int{0, 0, 0, 1, 2}[r.N(5)], B: r.N(2), D: r.N(len(rawSizes))}
			if r.N(12) == 0 {
				f.F = 1
				if r.N(40) == 0 {
					f.F = 3
				}
			}
			add(f)
			if r.N(14) == 0 {
				t += int64(r.N(150))
				add(Step{Op: "cut"})
				break
			}
		}
		t += 2000
		for k := r.N(3); k > 0; k-- {
			add(Step{Op: []string{"size", "garble", "short", "torn"}[r.N(4)], A: r.N(120), B: r.N(6)})
		}
	}
	return p
}

var rawKinds = []transports.Message{transports.MessageWamp, transports.MessagePing, transports.MessagePong}

// the numbers that the specification gives the serializers, and what the library calls them.
var rawNames = map[int]transports.Serializer{1: transports.SerializerJson, 2: transports.SerializerMsgpack, 3: transports.SerializerCbor}

// rawSerializer is the serializer that a handshake's number stands for.
func rawSerializer(ser int) serializers.Serializer {
	switch ser {
	case 2:
		return serializerOf(serMsgPack)
	case 3:
		return serializerOf(serCBOR)
	}
	return serializerOf(serJSON)
}

package main

import (
	"fmt"
	"sort"
	"strings"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

// The judge watches the router's boundary: every message that goes in, with
// everything that comes out. It keeps the reference model: who is attached,
// which registrations and subscriptions the router has confirmed and not ended,
// and which calls are in flight. It never reads the router's own state.

type mSession struct {
	id           uint64
	authid, role string
	static       bool
	regs         map[uint64]*mReg
	subs         map[uint64]*mSub
}

type mReg struct {
	id      uint64
	uri     string
	match   string
	policy  string
	callees []uint64
	ambig   bool // a callee registered twice: its place in the order is open
	hits    []uint64
	seen    map[uint64]int
	ended   bool // somebody's hold on it ended while others kept it
}

type mSub struct {
	id      uint64
	uri     string
	match   string
	members map[uint64]bool
}

type mInv struct {
	id       uint64
	caller   uint64
	callReq  uint64
	callee   uint64
	reg      uint64
	progress bool // the caller asked for progressive results
	open     bool

	calleeGone bool
}

type mKey struct{ sess, req uint64 }

type judge struct {
	w     *world
	sess  map[uint64]*mSession
	regs  map[uint64]*mReg
	subs  map[uint64]*mSub
	invs  map[uint64]*mInv
	chunk map[mKey]*mInv // progressive calls whose final chunk has not been sent

	pubIDs         map[uint64]bool
	goneRegs       map[uint64]string
	goneSubs       map[uint64]string
	goneRegList    []uint64
	byCall         map[mKey][]*mInv // at the end
	goneSubList    []uint64
	lives          map[uint64]int  // how often a session id was attached
	dups           map[uint64]bool // a second attach under the id of this session was tried
	discloseCaller bool

	disclosePublisher bool
}

func newJudge(w *world) *judge { return &judge{w: w} }

func (j *judge) reset() {
	j.sess = map[uint64]*mSession{}
	j.regs = map[uint64]*mReg{}
	j.subs = map[uint64]*mSub{}
	j.invs = map[uint64]*mInv{}
	j.chunk = map[mKey]*mInv{}
	j.pubIDs = map[uint64]bool{}
	j.goneRegs = map[uint64]string{}
	j.goneSubs = map[uint64]string{}
	j.goneRegList, j.goneSubList = nil, nil
	j.lives = map[uint64]int{}
	j.dups = map[uint64]bool{}
	j.discloseCaller, j.disclosePublisher = false, false
}

func canonical(m messages.Message) string {
	if m == nil {
		return "nothing"
	}
	name := strings.TrimPrefix(fmt.Sprintf("%T", m), "*messages.")
	if b, ok := m.(messages.BinaryPayload); ok && b.PayloadIsBinary() {
		switch x := m.(type) {
		case *messages.Invocation:
			return fmt.Sprintf("%s[%d %d %s binary %d %x]", name, x.RequestID(), x.RegistrationID(), norm(x.Details()), x.PayloadSerializer(), x.Payload())
		case *messages.Result:
			return fmt.Sprintf("%s[%d %s binary %d %x]", name, x.RequestID(), norm(x.Details()), x.PayloadSerializer(), x.Payload())
		case *messages.Call:
			return fmt.Sprintf("%s[%d %s %s binary %d %x]", name, x.RequestID(), norm(x.Options()), x.Procedure(), x.PayloadSerializer(), x.Payload())
		case *messages.Yield:
			return fmt.Sprintf("%s[%d %s binary %d %x]", name, x.RequestID(), norm(x.Options()), x.PayloadSerializer(), x.Payload())
		}
	}
	return name + norm(m.Marshal())
}

// which properties a crash of the router on a message contradicts.
var crashProps = map[string][]string{
	"attach":      {"C11", "C26"},
	"leave":       {"C11", "C03", "C08", "C26"},
	"disclose":    {"C10"},
	"CALL":        {"C01", "C02", "C04", "C05", "C06", "C10", "C20", "C26"},
	"YIELD":       {"C01", "C02", "C06", "C20", "C26"},
	"ERROR":       {"C01", "C02", "C26", "C20"},
	"REGISTER":    {"C01", "C03", "C05", "C26"},
	"UNREGISTER":  {"C03", "C26"},
	"SUBSCRIBE":   {"C07", "C08", "C26"},
	"UNSUBSCRIBE": {"C08", "C26"},
	"PUBLISH":     {"C07", "C09", "C10", "C20", "C26"},
	"has":         {"C03", "C08"},
}

func (w *world) crashed(kind, what, crash string) {
	w.event("CRASH " + kind + " " + crash)
	for _, p := range crashProps[kind] {
		w.violate(p, "crash", "the router crashed on %s: %s", what, crash)
	}
}

func (w *world) guard(kind string, f func()) bool {
	if crash := protect(f); crash != "" {
		w.crashed(kind, kind, crash)
		return false
	}
	return true
}

// route is the router core: it hands a message to the dealer or the broker,
// and sends what they answer.
func (w *world) route(from uint64, msg messages.Message) {
	w.count("messages")
	in := canonical(msg)
	var out *wampproto.MessageWithRecipient
	var pub *wampproto.Publication
	var err error
	kind := ""
	var f func()
	switch m := msg.(type) {
	case *messages.Call:
		kind = "CALL"
	case *messages.Yield:
		kind = "YIELD"
	case *messages.Error:
		kind = "ERROR"
	case *messages.Register:
		kind = "REGISTER"
	case *messages.Unregister:
		kind = "UNREGISTER"
	case *messages.Subscribe:
		kind = "SUBSCRIBE"
	case *messages.Unsubscribe:
		kind = "UNSUBSCRIBE"
	case *messages.Publish:
		kind = "PUBLISH"
		f = func() { pub, err = w.broker.ReceivePublish(from, m) }
	default:
		w.violate("C20", "altered", "session %d's message arrives as %s", from, in)
		return
	}
	switch kind {
	case "SUBSCRIBE", "UNSUBSCRIBE":
		f = func() { out, err = w.broker.ReceiveMessage(from, msg) }
	case "CALL", "YIELD", "ERROR", "REGISTER", "UNREGISTER":
		f = func() { out, err = w.dealer.ReceiveMessage(from, msg) }
	}
	if crash := protect(f); crash != "" {
		if w.j.sess[from] == nil {
			w.violate("C11", "crash", "the router crashed on a message of unattached session %d (%s): %s", from, in, crash)
		}
		w.crashed(kind, fmt.Sprintf("%s from session %d", in, from), crash)
		return
	}
	produced := outcome(out, pub)
	desc := fmt.Sprintf("%d> %s =>", from, in) + produced
	w.stillTheSame(in)
	if out != nil || pub != nil {
		k := kept{in, out, pub, produced}
		if len(w.kept) < 8 {
			w.kept = append(w.kept, k)
		} else {
			w.kept[w.keptN%8] = k
		}
		w.keptN++
	}
	if err != nil {
		desc += " refused"
	}
	w.event(desc)
	if w.trace && err != nil {
		w.log("  (%v)", err)
	}
	w.j.judge(kind, from, msg, in, out, pub, err)
	if err != nil {
		// a router drops a message that its dealer or broker refuses.
		return
	}
	if out != nil {
		w.deliver(out.Recipient, out.Message)
	}
	if pub != nil {
		if pub.Event != nil {
			for _, to := range pub.Recipients {
				w.deliver(to, pub.Event)
			}
		}
		if pub.Ack != nil {
			w.deliver(pub.Ack.Recipient, pub.Ack.Message)
		}
	}
}

// outcome says all that the router made of a message.
func outcome(out *wampproto.MessageWithRecipient, pub *wampproto.Publication) string {
	desc := ""
	if out != nil {
		desc += fmt.Sprintf(" to %d: %s", out.Recipient, canonical(out.Message))
	}
	if pub != nil {
		var ev messages.Message
		if pub.Event != nil {
			ev = pub.Event
		}
		to := append([]uint64(nil), pub.Recipients...)
		sort.Slice(to, func(a, b int) bool { return to[a] < to[b] })
		desc += fmt.Sprintf(" event to %v: %s", to, canonical(ev))
		if pub.Ack != nil {
			desc += fmt.Sprintf(" ack to %d: %s", pub.Ack.Recipient, canonical(pub.Ack.Message))
		}
	}
	return desc
}

// kept is something the router produced a while ago and that has not been
// sent yet: it waits in the queue of a slow connection.
type kept struct {
	in   string
	out  *wampproto.MessageWithRecipient
	pub  *wampproto.Publication
	said string
}

// stillTheSame: what waits to be sent does not change with what comes next.
func (w *world) stillTheSame(by string) {
	if len(w.kept) == 0 {
		return
	}
	k := w.kept[(w.keptN*5+len(by))%len(w.kept)]
	var msg messages.Message
	if k.out != nil {
		msg = k.out.Message
	} else if k.pub.Event != nil {
		msg = k.pub.Event
	} else {
		return
	}
	for _, p := range contentProps(msg) {
		w.check(p)
	}
	var said string
	if crash := protect(func() { said = outcome(k.out, k.pub) }); crash != "" || said != k.said {
		for _, p := range contentProps(msg) {
			w.violate(p, "changed-afterwards", "%s made the router produce%s; when %s came, this became%s %s", k.in, k.said, by, said, crash)
		}
	}
}

// ---------------------------------------------------------------- membership

func (j *judge) joined(id uint64, authid, role string, static bool, err error) {
	w := j.w
	w.check("C11")
	if err != nil {
		w.violate("C11", "attach-refused", "session %d is not attached, yet attaching it failed: %v", id, err)
	}
	j.lives[id]++
	delete(j.dups, id)
	j.sess[id] = &mSession{id: id, authid: authid, role: role, static: static, regs: map[uint64]*mReg{}, subs: map[uint64]*mSub{}}
}

func (j *judge) left(id uint64, err1, err2 error) {
	w := j.w
	s := j.sess[id]
	if s == nil {
		return
	}
	w.check("C11")
	if err1 != nil || err2 != nil {
		w.violate("C11", "remove-refused", "session %d is attached, yet removing it failed (dealer: %v, broker: %v)", id, err1, err2)
	}
	for _, rid := range sortedIDs(s.regs) {
		j.dropCallee(s.regs[rid], id)
	}
	for _, sid := range sortedIDs(s.subs) {
		j.dropMember(s.subs[sid], id)
	}
	for _, inv := range j.invs {
		if inv.caller == id || inv.callee == id {
			if inv.callee == id && inv.open {
				inv.calleeGone = true
			}
			inv.open = false
		}
	}
	for k := range j.chunk {
		if k.sess == id {
			delete(j.chunk, k)
		}
	}
	delete(j.sess, id)
}

func (j *judge) dropCallee(r *mReg, id uint64) {
	out := r.callees[:0:0]
	for _, c := range r.callees {
		if c != id {
			out = append(out, c)
		}
	}
	r.callees = out
	r.ended = true
	r.hits, r.seen = nil, nil
	if len(out) == 0 {
		delete(j.regs, r.id)
		j.goneRegs[r.id] = r.uri
		j.goneRegList = append(j.goneRegList, r.id)
	}
}

func (j *judge) dropMember(s *mSub, id uint64) {
	delete(s.members, id)
	if len(s.members) == 0 {
		delete(j.subs, s.id)
		j.goneSubs[s.id] = s.uri
		j.goneSubList = append(j.goneSubList, s.id)
	}
}

func (j *judge) anyRegID(i int) uint64 {
	ids := sortedIDs(j.regs)
	ids = append(ids, j.goneRegList...)
	if len(ids) == 0 {
		return uint64(i%7) + 1
	}
	if i%5 == 4 {
		return 700000 + uint64(i)
	}
	return ids[i%len(ids)]
}

func (j *judge) anySubID(i int) uint64 {
	ids := sortedIDs(j.subs)
	ids = append(ids, j.goneSubList...)
	if len(ids) == 0 {
		return uint64(i%7) + 1
	}
	if i%5 == 4 {
		return 700000 + uint64(i)
	}
	return ids[i%len(ids)]
}

// ---------------------------------------------------------------- matching

func matches(match, pattern, uri string) bool {
	switch match {
	case "prefix":
		return strings.HasPrefix(uri, pattern)
	case "wildcard":
		return globMatch(pattern, uri)
	}
	return pattern == uri
}

// globMatch: '*' stands for any run of characters, everything else for itself.
func globMatch(pattern, s string) bool {
	if pattern == "" {
		return s == ""
	}
	if pattern[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if globMatch(pattern[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return s != "" && s[0] == pattern[0] && globMatch(pattern[1:], s[1:])
}

func rank(match, uri string) int {
	switch match {
	case "exact":
		return 1 << 20
	case "prefix":
		return 1<<10 + len(uri)
	}
	return 1
}

// matching returns the live registrations that match, and those of the highest precedence.
func (j *judge) matching(uri string) (all, best []*mReg) {
	top := 0
	for _, id := range sortedIDs(j.regs) {
		r := j.regs[id]
		if matches(r.match, r.uri, uri) {
			all = append(all, r)
			if k := rank(r.match, r.uri); k > top {
				top = k
			}
		}
	}
	for _, r := range all {
		if rank(r.match, r.uri) == top {
			best = append(best, r)
		}
	}
	return all, best
}

func (j *judge) matchingSubs(uri string) (all, best []*mSub) {
	top := 0
	for _, id := range sortedIDs(j.subs) {
		r := j.subs[id]
		if matches(r.match, r.uri, uri) {
			all = append(all, r)
			if k := rank(r.match, r.uri); k > top {
				top = k
			}
		}
	}
	for _, r := range all {
		if rank(r.match, r.uri) == top {
			best = append(best, r)
		}
	}
	return all, best
}

// ---------------------------------------------------------------- the oracle

func (j *judge) judge(kind string, from uint64, msg messages.Message, in string,
	out *wampproto.MessageWithRecipient, pub *wampproto.Publication, err error) {
	w := j.w
	// nothing is ever addressed to somebody who is not there.
	var to []uint64
	if out != nil {
		to = append(to, out.Recipient)
	}
	if pub != nil {
		to = append(to, pub.Recipients...)
		if pub.Ack != nil {
			to = append(to, pub.Ack.Recipient)
		}
	}
	for _, id := range to {
		w.check("C11")
		if j.sess[id] == nil && id != from {
			w.violate("C11", "departed-recipient", "%s from session %d: the router addresses session %d, which is not attached", in, from, id)
		}
	}
	if j.sess[from] == nil {
		w.check("C11")
		if out != nil || pub != nil || err == nil {
			w.violate("C11", "straggler", "session %d is not attached, yet its %s is accepted (out: %v, publication: %v)", from, in, describeOut(out), pub != nil)
			switch kind {
			case "CALL":
				w.violate("C01", "unattached-caller", "session %d is not attached, yet its %s is accepted: %s", from, in, describeOut(out))
			case "YIELD", "ERROR":
				w.violate("C02", "unattached-callee", "session %d is not attached, yet its %s is accepted: %s", from, in, describeOut(out))
			case "PUBLISH":
				w.violate("C07", "unattached-publisher", "session %d is not attached, yet its %s is accepted", from, in)
				w.violate("C09", "unattached-publisher", "session %d is not attached, yet its %s is accepted", from, in)
			}
		}
		if (kind == "YIELD" || kind == "ERROR") && out != nil {
			w.violate("C02", "third-party", "%s from unattached session %d is delivered: %s", in, from, describeOut(out))
		}
		return
	}
	switch m := msg.(type) {
	case *messages.Call:
		j.onCall(from, m, in, out, err)
	case *messages.Yield:
		j.onYield(from, m, in, out, err)
	case *messages.Error:
		j.onError(from, m, in, out, err)
	case *messages.Register:
		j.onRegister(from, m, in, out, err)
	case *messages.Unregister:
		j.onUnregister(from, m, in, out, err)
	case *messages.Subscribe:
		j.onSubscribe(from, m, in, out, err)
	case *messages.Unsubscribe:
		j.onUnsubscribe(from, m, in, out, err)
	case *messages.Publish:
		j.onPublish(from, m, in, pub, err)
	}
}

func describeOut(out *wampproto.MessageWithRecipient) string {
	if out == nil {
		return "nothing"
	}
	return fmt.Sprintf("%s to session %d", canonical(out.Message), out.Recipient)
}

func contains(ids []uint64, id uint64) bool {
	for _, x := range ids {
		if x == id {
			return true
		}
	}
	return false
}

// samePayload compares what went in with what comes out, decoded or not.
func samePayload(in messages.BinaryPayload, inArgs []any, inKw map[string]any, out messages.BinaryPayload, outArgs func() []any, outKw func() map[string]any) (string, bool) {
	if in.PayloadIsBinary() && len(inArgs)+len(inKw) == 0 { // it is all in the encoded form
		inArgs, inKw, _ = payloadOf(in, nil, nil)
	}
	want := normPayload(inArgs, inKw)
	if out.PayloadIsBinary() {
		if in.PayloadIsBinary() && (string(in.Payload()) != string(out.Payload()) || in.PayloadSerializer() != out.PayloadSerializer()) {
			return fmt.Sprintf("binary payload %x (serializer %d)", out.Payload(), out.PayloadSerializer()), false
		}
	}
	args, kwargs, err := payloadOf(out, outArgs, outKw)
	if err != nil {
		return "undecodable: " + err.Error(), false
	}
	got := normPayload(args, kwargs)
	return got, got == want
}

func (j *judge) onCall(from uint64, m *messages.Call, in string, out *wampproto.MessageWithRecipient, err error) {
	w := j.w
	receive, _ := m.Options()["receive_progress"].(bool)
	progress, _ := m.Options()["progress"].(bool)
	key := mKey{from, m.RequestID()}
	if inv := j.chunk[key]; inv != nil {
		w.check("C06")
		if !progress {
			delete(j.chunk, key)
		}
		if !inv.open {
			w.count("chunk-after-settlement")
			if out != nil {
				w.violate("C06", "chunk-after-settlement", "the call is over, yet its further chunk %s from session %d produces %s", in, from, describeOut(out))
				if _, ok := out.Message.(*messages.Invocation); ok {
					j.learnInvocation(from, m, out, progress, receive)
				}
			}
			return
		}
		w.count("continuation-chunk")
		iv, ok := j.invocation(out)
		if !ok {
			w.violate("C06", "chunk-lost", "chunk %s from session %d of the open invocation %d produces %s (%v)", in, from, inv.id, describeOut(out), err)
			w.violate("C20", "chunk-lost", "chunk %s from session %d of the open invocation %d produces %s (%v)", in, from, inv.id, describeOut(out), err)
			return
		}
		if iv.RequestID() != inv.id || out.Recipient != inv.callee || iv.RegistrationID() != inv.reg {
			w.violate("C06", "chunk-astray", "chunk %s from session %d belongs to invocation %d (registration %d) of callee %d, and goes to %s", in, from, inv.id, inv.reg, inv.callee, describeOut(out))
			if iv.RequestID() != inv.id {
				j.learnInvocation(from, m, out, progress, receive)
			}
			return
		}
		if p, _ := iv.Details()["progress"].(bool); p != progress {
			w.violate("C06", "chunk-flag", "chunk %s from session %d arrives as %s", in, from, describeOut(out))
			w.violate("C20", "chunk-flag", "chunk %s from session %d arrives as %s", in, from, describeOut(out))
		}
		if got, same := samePayload(m, m.Args(), m.KwArgs(), iv, iv.Args, iv.KwArgs); !same {
			w.violate("C06", "chunk-payload", "chunk %s from session %d arrives with payload %s", in, from, got)
			w.violate("C20", "chunk-payload", "chunk %s from session %d arrives with payload %s", in, from, got)
		}
		j.callDetails(from, m, in, iv, j.regs[inv.reg])
		return
	}

	all, best := j.matching(m.Procedure())
	w.check("C01")
	w.check("C04")
	w.check("C03")
	if len(all) == 0 {
		e, ok := j.errorTo(out, from)
		if ok && e.MessageType() == messages.MessageTypeCall && e.RequestID() == m.RequestID() && e.URI() == "wamp.error.no_such_procedure" {
			w.count("no-such-procedure")
			return
		}
		w.violate("C01", "no-match", "no live registration matches %s from session %d, and the router answers %s (%v)", in, from, describeOut(out), err)
		if iv, ok := j.invocation(out); ok {
			if j.lives[out.Recipient] > 1 {
				w.violate("C11", "residue", "session %d was attached before and holds no such registration now, yet %s from session %d is sent to it", out.Recipient, in, from)
			}
			w.violate("C03", "routed-after-end", "no live registration matches %s from session %d, and the router invokes session %d (registration %d)", in, from, out.Recipient, iv.RegistrationID())
			w.violate("C04", "no-match", "no live registration matches %s from session %d, and the router invokes session %d (registration %d)", in, from, out.Recipient, iv.RegistrationID())
			j.learnInvocation(from, m, out, progress, receive)
		}
		return
	}
	iv, ok := j.invocation(out)
	if !ok {
		w.violate("C01", "not-routed", "%s from session %d matches registration %d (%s %q), and the router answers %s (%v)", in, from, best[0].id, best[0].match, best[0].uri, describeOut(out), err)
		w.violate("C03", "not-routed", "%s from session %d matches the live registration %d (%s %q), and the router answers %s (%v)", in, from, best[0].id, best[0].match, best[0].uri, describeOut(out), err)
		for _, id := range best[0].callees {
			j.legacy(id, "%s from session %d matches registration %d, which it holds, and the router answers %s (%v)", in, from, best[0].id, describeOut(out), err)
		}
		w.violate("C04", "not-routed", "%s from session %d matches the live registration %d (%s %q), and the router answers %s (%v)", in, from, best[0].id, best[0].match, best[0].uri, describeOut(out), err)
		if progress {
			w.violate("C06", "not-routed", "progressive %s from session %d matches a live registration, and the router answers %s (%v)", in, from, describeOut(out), err)
		}
		return
	}
	w.count("invocations")
	// which registration
	var reg *mReg
	for _, r := range all {
		if r.id == iv.RegistrationID() {
			reg = r
		}
	}
	switch {
	case reg == nil:
		w.violate("C01", "wrong-registration", "%s from session %d is invoked under registration %d, which is not a live registration that matches", in, from, iv.RegistrationID())
		w.violate("C04", "wrong-registration", "%s from session %d is invoked under registration %d, which is not a live registration that matches", in, from, iv.RegistrationID())
		w.violate("C03", "wrong-registration", "%s from session %d is invoked under registration %d, which is not a live registration that matches", in, from, iv.RegistrationID())
	case !contains(reg.callees, out.Recipient):
		w.violate("C01", "not-a-callee", "%s from session %d is sent to session %d, which does not hold registration %d (its callees: %v)", in, from, out.Recipient, reg.id, reg.callees)
		w.violate("C03", "not-a-callee", "%s from session %d is sent to session %d, which does not hold registration %d (its callees: %v)", in, from, out.Recipient, reg.id, reg.callees)
		w.violate("C05", "not-a-callee", "%s from session %d is sent to session %d, which does not hold registration %d (its callees: %v)", in, from, out.Recipient, reg.id, reg.callees)
	}
	if j.lives[out.Recipient] > 1 && (reg == nil || !contains(reg.callees, out.Recipient)) {
		w.violate("C11", "residue", "session %d was attached before and holds no such registration now, yet %s from session %d is sent to it", out.Recipient, in, from)
	}
	if len(all) > len(best) || len(best) > 1 {
		w.count("overlapping-registrations")
	}
	if reg != nil {
		isBest := false
		for _, r := range best {
			isBest = isBest || r == reg
		}
		if !isBest {
			w.violate("C04", "precedence", "%s from session %d matches %s %q (registration %d), and goes to %s %q (registration %d)", in, from, best[0].match, best[0].uri, best[0].id, reg.match, reg.uri, reg.id)
		}
		j.policy(reg, out.Recipient, in)
	}
	// identity
	w.check("C02")
	if old := j.invs[iv.RequestID()]; old != nil {
		w.violate("C02", "invocation-id", "invocation id %d of %s from session %d was used before, for a call of session %d", iv.RequestID(), in, from, old.caller)
		if old.open {
			w.violate("C06", "invocation-shared", "%s from session %d starts a new call, and shares the open invocation %d of session %d's call", in, from, old.id, old.caller)
		}
	}
	// content
	if got, same := samePayload(m, m.Args(), m.KwArgs(), iv, iv.Args, iv.KwArgs); !same {
		w.violate("C01", "payload", "%s from session %d arrives with payload %s", in, from, got)
		w.violate("C20", "payload", "%s from session %d arrives with payload %s", in, from, got)
	}
	if callee := j.sess[out.Recipient]; callee != nil && iv.PayloadIsBinary() && !callee.static {
		w.violate("C01", "payload", "%s from session %d stays binary for session %d, whose serializer cannot carry that", in, from, out.Recipient)
		w.violate("C20", "payload", "%s from session %d stays binary for session %d, whose serializer cannot carry that", in, from, out.Recipient)
	}
	if p, _ := iv.Details()["receive_progress"].(bool); p != receive {
		w.violate("C02", "receive-progress", "%s from session %d: the callee is told receive_progress=%v", in, from, p)
	}
	w.check("C06")
	if p, _ := iv.Details()["progress"].(bool); p != progress {
		w.violate("C06", "chunk-flag", "%s from session %d arrives as %s", in, from, describeOut(out))
		w.violate("C20", "chunk-flag", "%s from session %d arrives as %s", in, from, describeOut(out))
	}
	j.callDetails(from, m, in, iv, reg)
	j.learnInvocation(from, m, out, progress, receive)
}

func (j *judge) learnInvocation(from uint64, m *messages.Call, out *wampproto.MessageWithRecipient, progress, receive bool) {
	iv := out.Message.(*messages.Invocation)
	inv := &mInv{id: iv.RequestID(), caller: from, callReq: m.RequestID(), callee: out.Recipient, reg: iv.RegistrationID(), progress: receive, open: true}
	if j.sess[out.Recipient] == nil {
		inv.open = false
	}
	j.invs[inv.id] = inv
	j.w.invLog = append(j.w.invLog, inv.id)
	if progress {
		j.chunk[mKey{from, m.RequestID()}] = inv
	}
}

func (j *judge) invocation(out *wampproto.MessageWithRecipient) (*messages.Invocation, bool) {
	if out == nil {
		return nil, false
	}
	iv, ok := out.Message.(*messages.Invocation)
	return iv, ok
}

func (j *judge) errorTo(out *wampproto.MessageWithRecipient, to uint64) (*messages.Error, bool) {
	if out == nil || out.Recipient != to {
		return nil, false
	}
	e, ok := out.Message.(*messages.Error)
	return e, ok
}

func (j *judge) callDetails(from uint64, m *messages.Call, in string, iv *messages.Invocation, reg *mReg) {
	w := j.w
	w.check("C10")
	d := iv.Details()
	s := j.sess[from]
	if j.discloseCaller {
		w.count("disclosed")
		if norm(d["caller"]) != norm(from) || norm(d["caller_authid"]) != norm(s.authid) || norm(d["caller_authrole"]) != norm(s.role) {
			w.violate("C10", "caller", "callers are disclosed; %s from session %d (%s/%s) arrives with details %s", in, from, s.authid, s.role, norm(d))
			j.legacy(from, "%s (%s/%s) arrives with details %s", in, s.authid, s.role, norm(d))
		}
	} else {
		for _, k := range []string{"caller", "caller_authid", "caller_authrole"} {
			if _, ok := d[k]; ok {
				w.violate("C10", "caller-leak", "callers are not disclosed; %s from session %d arrives with details %s", in, from, norm(d))
			}
		}
	}
	p, ok := d["procedure"]
	if ok && norm(p) != norm(m.Procedure()) {
		w.violate("C10", "procedure", "%s from session %d names procedure %s", in, from, norm(p))
	}
	if reg != nil && reg.match != "exact" && !ok {
		w.violate("C10", "procedure-missing", "%s from session %d reaches the %s registration %q without naming the procedure", in, from, reg.match, reg.uri)
	}
	if reg != nil && reg.match == "exact" && !j.discloseCaller && ok {
		w.violate("C10", "procedure-leak", "%s from session %d reaches an exact registration with details %s", in, from, norm(d))
	}
}

// legacy says the same for C11, if the session had a predecessor under its id or
// somebody tried to attach a second one: it neither inherits nor loses anything.
func (j *judge) legacy(id uint64, format string, args ...any) {
	if j.lives[id] > 1 {
		j.w.violate("C11", "inherited", "session %d had a predecessor under its id: "+format, append([]any{id}, args...)...)
	} else if j.dups[id] {
		j.w.violate("C11", "second-attach", "a second attach as session %d was refused: "+format, append([]any{id}, args...)...)
	}
}

// leftOut says the same for C03, if others gave up the registration and one that did not is passed over.
func (j *judge) leftOut(reg *mReg, callee uint64, in string) {
	if reg.ended {
		j.w.violate("C03", "left-out", "%s: of the callees %v of registration %d, which others have left, %d is invoked out of turn", in, reg.callees, reg.id, callee)
	}
}

func (j *judge) policy(reg *mReg, callee uint64, in string) {
	w := j.w
	w.check("C05")
	if len(reg.callees) < 2 {
		return
	}
	w.count("shared-invocations:" + reg.policy)
	switch reg.policy {
	case "first":
		if !reg.ambig && callee != reg.callees[0] {
			w.violate("C05", "policy-first", "%s: the first callee of registration %d is %d (%v), and %d is invoked", in, reg.id, reg.callees[0], reg.callees, callee)
			j.leftOut(reg, callee, in)
		}
	case "last":
		if !reg.ambig && callee != reg.callees[len(reg.callees)-1] {
			w.violate("C05", "policy-last", "%s: the last callee of registration %d is %d (%v), and %d is invoked", in, reg.id, reg.callees[len(reg.callees)-1], reg.callees, callee)
			j.leftOut(reg, callee, in)
		}
	case "roundrobin":
		n := len(reg.callees)
		if k := len(reg.hits); k > 0 {
			recent := reg.hits
			if k > n-1 {
				recent = reg.hits[k-(n-1):]
			}
			if contains(recent, callee) {
				w.violate("C05", "policy-roundrobin", "%s: registration %d has callees %v, whose last invocations went to %v, and the next goes to %d", in, reg.id, reg.callees, recent, callee)
				j.leftOut(reg, callee, in)
			}
		}
		reg.hits = append(reg.hits, callee)
	case "random":
		if reg.seen == nil {
			reg.seen = map[uint64]int{}
		}
		reg.seen[callee]++
		total := 0
		for _, n := range reg.seen {
			total += n
		}
		if total >= 40*len(reg.callees) && len(reg.seen) < len(reg.callees) {
			w.violate("C05", "policy-random", "%s: of the callees %v of registration %d, only %v were ever invoked in %d calls", in, reg.callees, reg.id, reg.seen, total)
			j.leftOut(reg, callee, in)
		}
	}
}

func (j *judge) onYield(from uint64, m *messages.Yield, in string, out *wampproto.MessageWithRecipient, err error) {
	w := j.w
	inv := j.invs[m.RequestID()]
	w.check("C02")
	if inv == nil || !inv.open || inv.callee != from {
		w.count("reply-refused")
		if out != nil {
			w.violate("C02", "not-pending", "%s from session %d, which has no such invocation pending, is delivered: %s", in, from, describeOut(out))
			if inv != nil && !inv.open {
				if j.sess[inv.caller] == nil || j.sess[inv.callee] == nil {
					w.violate("C11", "pending-survives", "%s from session %d answers a call whose caller or callee departed, and is delivered: %s", in, from, describeOut(out))
				}
			}
		}
		if out == nil && err == nil {
			w.count("silent-drop")
		}
		return
	}
	progress, _ := m.Options()["progress"].(bool)
	progress = progress && inv.progress
	w.check("C01")
	if !progress {
		inv.open = false
	}
	var r *messages.Result
	ok := false
	if out != nil {
		r, ok = out.Message.(*messages.Result)
	}
	if !ok {
		w.violate("C01", "reply-lost", "%s from callee %d of call %d of session %d produces %s (%v)", in, from, inv.callReq, inv.caller, describeOut(out), err)
		w.violate("C20", "reply-lost", "%s from callee %d of call %d of session %d produces %s (%v)", in, from, inv.callReq, inv.caller, describeOut(out), err)
		w.violate("C02", "reply-lost", "%s from callee %d, the first final reply or a wanted progress of call %d of session %d, produces %s (%v)", in, from, inv.callReq, inv.caller, describeOut(out), err)
		return
	}
	if progress {
		w.count("progress-results")
	} else {
		w.count("results")
	}
	if out.Recipient != inv.caller || r.RequestID() != inv.callReq {
		w.violate("C01", "reply-astray", "%s from callee %d answers call %d of session %d, and goes out as %s", in, from, inv.callReq, inv.caller, describeOut(out))
		w.violate("C02", "reply-astray", "%s from callee %d answers call %d of session %d, and goes out as %s", in, from, inv.callReq, inv.caller, describeOut(out))
	}
	if p, _ := r.Details()["progress"].(bool); p != progress {
		w.violate("C02", "progress-flag", "%s from callee %d (progress wanted: %v) goes out as %s", in, from, inv.progress, describeOut(out))
		w.violate("C20", "progress-flag", "%s from callee %d (progress wanted: %v) goes out as %s", in, from, inv.progress, describeOut(out))
	}
	if got, same := samePayload(m, m.Args(), m.KwArgs(), r, r.Args, r.KwArgs); !same {
		w.violate("C01", "reply-payload", "%s from callee %d goes out with payload %s", in, from, got)
		w.violate("C20", "reply-payload", "%s from callee %d goes out with payload %s", in, from, got)
	}
	if caller := j.sess[out.Recipient]; caller != nil && r.PayloadIsBinary() && !caller.static {
		w.violate("C01", "reply-payload", "%s from callee %d stays binary for session %d, whose serializer cannot carry that", in, from, out.Recipient)
		w.violate("C20", "reply-payload", "%s from callee %d stays binary for session %d, whose serializer cannot carry that", in, from, out.Recipient)
	}
}

func (j *judge) onError(from uint64, m *messages.Error, in string, out *wampproto.MessageWithRecipient, err error) {
	w := j.w
	inv := j.invs[m.RequestID()]
	w.check("C02")
	if inv == nil || !inv.open || inv.callee != from {
		w.count("reply-refused")
		if out != nil {
			w.violate("C02", "not-pending", "%s from session %d, which has no such invocation pending, is delivered: %s", in, from, describeOut(out))
			if inv != nil && !inv.open && (j.sess[inv.caller] == nil || j.sess[inv.callee] == nil) {
				w.violate("C11", "pending-survives", "%s from session %d answers a call whose caller or callee departed, and is delivered: %s", in, from, describeOut(out))
			}
		}
		return
	}
	inv.open = false
	w.check("C01")
	e, ok := j.errorTo(out, inv.caller)
	if !ok {
		w.violate("C01", "error-lost", "%s from callee %d of call %d of session %d produces %s (%v)", in, from, inv.callReq, inv.caller, describeOut(out), err)
		w.violate("C20", "error-lost", "%s from callee %d of call %d of session %d produces %s (%v)", in, from, inv.callReq, inv.caller, describeOut(out), err)
		w.violate("C02", "error-lost", "%s from callee %d, the first final reply to call %d of session %d, produces %s (%v)", in, from, inv.callReq, inv.caller, describeOut(out), err)
		return
	}
	w.count("call-errors")
	if e.MessageType() != messages.MessageTypeCall || e.RequestID() != inv.callReq {
		w.violate("C01", "error-astray", "%s from callee %d answers call %d of session %d, and goes out as %s", in, from, inv.callReq, inv.caller, describeOut(out))
		w.violate("C02", "error-astray", "%s from callee %d answers call %d of session %d, and goes out as %s", in, from, inv.callReq, inv.caller, describeOut(out))
	}
	if e.URI() != m.URI() || normPayload(e.Args(), e.KwArgs()) != normPayload(m.Args(), m.KwArgs()) || norm(e.Details()) != norm(m.Details()) {
		w.violate("C01", "error-altered", "%s from callee %d goes out as %s", in, from, describeOut(out))
		w.violate("C20", "error-altered", "%s from callee %d goes out as %s", in, from, describeOut(out))
	}
}

func matchOf(opts map[string]any) string {
	m, _ := opts["match"].(string)
	if m != "prefix" && m != "wildcard" {
		return "exact"
	}
	return m
}

func shared(policy string) bool { return policy != "" && policy != "single" }

func (j *judge) onRegister(from uint64, m *messages.Register, in string, out *wampproto.MessageWithRecipient, err error) {
	w := j.w
	match := matchOf(m.Options())
	policy, _ := m.Options()["invoke"].(string)
	var same []*mReg // live registrations of this very URI
	for _, id := range sortedIDs(j.regs) {
		if r := j.regs[id]; r.uri == m.Procedure() {
			same = append(same, r)
		}
	}
	w.check("C05")
	w.check("C03")
	if e, ok := j.errorTo(out, from); ok && e.MessageType() == messages.MessageTypeRegister && e.RequestID() == m.RequestID() && e.URI() == "wamp.error.procedure_already_exists" {
		w.count("register-refused")
		if len(same) == 0 {
			w.violate("C03", "register-refused", "nobody holds a registration of %q, yet %s from session %d is refused as a duplicate", m.Procedure(), in, from)
			w.violate("C05", "register-refused", "nobody holds a registration of %q, yet %s from session %d is refused as a duplicate", m.Procedure(), in, from)
			return
		}
		for _, r := range same {
			if shared(r.policy) && r.policy == policy && r.match == match && policy != oddPolicy {
				w.violate("C05", "share-refused", "registration %d of %q is shared with policy %s, yet %s from session %d is refused", r.id, r.uri, r.policy, in, from)
			}
		}
		return
	}
	var reg *messages.Registered
	ok := false
	if out != nil && out.Recipient == from {
		reg, ok = out.Message.(*messages.Registered)
	}
	if !ok || reg.RequestID() != m.RequestID() {
		w.violate("C03", "register-unanswered", "%s from session %d produces %s (%v)", in, from, describeOut(out), err)
		w.violate("C05", "register-unanswered", "%s from session %d produces %s (%v)", in, from, describeOut(out), err)
		return
	}
	w.count("registered")
	id := reg.RegistrationID()
	if r := j.regs[id]; r != nil {
		// joins an existing registration
		w.count("register-shared")
		if r.uri != m.Procedure() || r.match != match {
			w.violate("C05", "joined-other", "%s from session %d joins registration %d, which is %s %q", in, from, id, r.match, r.uri)
			w.violate("C03", "joined-other", "%s from session %d joins registration %d, which is %s %q", in, from, id, r.match, r.uri)
			return
		}
		if !shared(r.policy) || r.policy != policy {
			w.violate("C05", "exclusive", "registration %d of %q has policy %q and callees %v, and %s from session %d is accepted into it", id, r.uri, r.policy, r.callees, in, from)
		}
		if contains(r.callees, from) {
			r.ambig = true
		} else {
			r.callees = append(r.callees, from)
		}
		r.hits, r.seen = nil, nil
		j.sess[from].regs[id] = r
		return
	}
	if len(same) > 0 {
		w.violate("C05", "duplicate", "registration %d of %q (%s, policy %q) is live, and %s from session %d creates registration %d beside it", same[0].id, m.Procedure(), same[0].match, same[0].policy, in, from, id)
	}
	if _, gone := j.goneRegs[id]; gone {
		w.violate("C03", "id-reused", "%s from session %d is given registration id %d, which was used before", in, from, id)
	}
	r := &mReg{id: id, uri: m.Procedure(), match: match, policy: policy, callees: []uint64{from}}
	j.regs[id] = r
	j.sess[from].regs[id] = r
}

func (j *judge) onUnregister(from uint64, m *messages.Unregister, in string, out *wampproto.MessageWithRecipient, err error) {
	w := j.w
	w.check("C03")
	s := j.sess[from]
	r := s.regs[m.RegistrationID()]
	if r == nil {
		w.count("unregister-refused")
		if c := w.bySess[from]; c != nil {
			delete(c.outs, m.RequestID())
		}
		if out != nil {
			if _, ok := out.Message.(*messages.Error); !ok {
				w.violate("C03", "foreign-unregister", "session %d does not hold registration %d, and its %s produces %s", from, m.RegistrationID(), in, describeOut(out))
				j.legacy(from, "it does not hold registration %d, and its %s is accepted", m.RegistrationID(), in)
			}
		} else if err == nil {
			w.violate("C03", "foreign-unregister", "session %d does not hold registration %d, and its %s is accepted", from, m.RegistrationID(), in)
			j.legacy(from, "it does not hold registration %d, and its %s is accepted", m.RegistrationID(), in)
		}
		return
	}
	ok := false
	if out != nil && out.Recipient == from {
		if u, is := out.Message.(*messages.Unregistered); is && u.RequestID() == m.RequestID() {
			ok = true
		}
	}
	if !ok {
		w.violate("C03", "unregister-unanswered", "session %d holds registration %d, and its %s produces %s (%v)", from, r.id, in, describeOut(out), err)
		j.legacy(from, "it holds registration %d, and its %s produces %s (%v)", r.id, in, describeOut(out), err)
		return
	}
	w.count("unregistered")
	delete(s.regs, r.id)
	j.dropCallee(r, from)
}

func removeID(ids []uint64, id uint64) []uint64 {
	out := ids[:0:0]
	for _, x := range ids {
		if x != id {
			out = append(out, x)
		}
	}
	return out
}

func (j *judge) onSubscribe(from uint64, m *messages.Subscribe, in string, out *wampproto.MessageWithRecipient, err error) {
	w := j.w
	w.check("C08")
	match := matchOf(m.Options())
	var sd *messages.Subscribed
	ok := false
	if out != nil && out.Recipient == from {
		sd, ok = out.Message.(*messages.Subscribed)
	}
	if !ok || sd.RequestID() != m.RequestID() {
		w.violate("C08", "subscribe-unanswered", "%s from session %d produces %s (%v)", in, from, describeOut(out), err)
		return
	}
	w.count("subscribed")
	id := sd.SubscriptionID()
	var live *mSub
	for _, sid := range sortedIDs(j.subs) {
		if s := j.subs[sid]; s.uri == m.Topic() && s.match == match {
			live = s
		}
	}
	if s := j.subs[id]; s != nil && (s.uri != m.Topic() || s.match != match) {
		w.violate("C08", "id-shared", "%s from session %d is given subscription id %d, which is the live subscription %s %q", in, from, id, s.match, s.uri)
		return
	}
	if live != nil && live.id != id {
		w.violate("C08", "split", "subscription %d of %s %q is live, and %s from session %d creates subscription %d beside it", live.id, live.match, live.uri, in, from, id)
	}
	if _, gone := j.goneSubs[id]; gone {
		w.violate("C08", "id-reused", "%s from session %d is given subscription id %d, which was used before", in, from, id)
	}
	s := j.subs[id]
	if s == nil {
		s = &mSub{id: id, uri: m.Topic(), match: match, members: map[uint64]bool{}}
		j.subs[id] = s
	}
	s.members[from] = true
	j.sess[from].subs[id] = s
}

func (j *judge) onUnsubscribe(from uint64, m *messages.Unsubscribe, in string, out *wampproto.MessageWithRecipient, err error) {
	w := j.w
	w.check("C08")
	s := j.sess[from]
	sub := s.subs[m.SubscriptionID()]
	if sub == nil {
		w.count("unsubscribe-refused")
		if c := w.bySess[from]; c != nil {
			delete(c.outs, m.RequestID())
		}
		if out != nil {
			if _, ok := out.Message.(*messages.Error); !ok {
				w.violate("C08", "foreign-unsubscribe", "session %d does not hold subscription %d, and its %s produces %s", from, m.SubscriptionID(), in, describeOut(out))
				j.legacy(from, "it does not hold subscription %d, and its %s is accepted", m.SubscriptionID(), in)
			}
		} else if err == nil {
			w.violate("C08", "foreign-unsubscribe", "session %d does not hold subscription %d, and its %s is accepted", from, m.SubscriptionID(), in)
			j.legacy(from, "it does not hold subscription %d, and its %s is accepted", m.SubscriptionID(), in)
		}
		return
	}
	ok := false
	if out != nil && out.Recipient == from {
		if u, is := out.Message.(*messages.Unsubscribed); is && u.RequestID() == m.RequestID() {
			ok = true
		}
	}
	if !ok {
		w.violate("C08", "unsubscribe-unanswered", "session %d holds subscription %d, and its %s produces %s (%v)", from, sub.id, in, describeOut(out), err)
		j.legacy(from, "it holds subscription %d, and its %s produces %s (%v)", sub.id, in, describeOut(out), err)
		return
	}
	w.count("unsubscribed")
	delete(s.subs, sub.id)
	j.dropMember(sub, from)
}

func members(s *mSub, publisher uint64, exclude bool) []uint64 {
	var out []uint64
	for id := range s.members {
		if id != publisher || !exclude {
			out = append(out, id)
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a] < out[b] })
	return out
}

func (j *judge) onPublish(from uint64, m *messages.Publish, in string, pub *wampproto.Publication, err error) {
	w := j.w
	if err != nil || pub == nil {
		w.violate("C07", "publish-refused", "%s from attached session %d is refused: %v", in, from, err)
		w.violate("C09", "publish-refused", "%s from attached session %d is refused: %v", in, from, err)
		return
	}
	exclude := true
	if v, ok := m.Options()["exclude_me"].(bool); ok {
		exclude = v
	}
	// C09: acknowledgement and publication id
	w.check("C09")
	wantAck, _ := m.Options()["acknowledge"].(bool)
	var pubID uint64
	if pub.Ack != nil {
		ack, ok := pub.Ack.Message.(*messages.Published)
		switch {
		case !wantAck:
			w.violate("C09", "unwanted-ack", "%s from session %d does not ask for an acknowledgement and gets %s", in, from, describeOut(pub.Ack))
		case !ok || pub.Ack.Recipient != from || ack.RequestID() != m.RequestID():
			w.violate("C09", "ack-astray", "%s from session %d is acknowledged by %s", in, from, describeOut(pub.Ack))
		default:
			w.count("acks")
			pubID = ack.PublicationID()
			if pub.Event != nil && len(pub.Recipients) > 0 && pub.Event.PublicationID() != pubID {
				w.violate("C09", "publication-id", "%s from session %d is acknowledged as publication %d and delivered as %d", in, from, pubID, pub.Event.PublicationID())
			}
		}
	} else if wantAck {
		w.violate("C09", "ack-missing", "%s from session %d asks for an acknowledgement and gets none", in, from)
	}
	if pub.Event != nil && pubID == 0 {
		pubID = pub.Event.PublicationID()
	}
	if pub.Ack != nil || pub.Event != nil {
		if j.pubIDs[pubID] {
			w.violate("C09", "publication-id-reused", "%s from session %d has publication id %d, which another publication had", in, from, pubID)
		}
		if pubID == 0 {
			w.violate("C09", "publication-id-zero", "%s from session %d has publication id 0", in, from)
		}
		j.pubIDs[pubID] = true
	}
	// C07: who gets it
	w.check("C07")
	w.check("C08")
	all, best := j.matchingSubs(m.Topic())
	got := append([]uint64(nil), pub.Recipients...)
	sort.Slice(got, func(a, b int) bool { return got[a] < got[b] })
	for i := 1; i < len(got); i++ {
		if got[i] == got[i-1] {
			w.violate("C07", "duplicate", "%s from session %d goes to session %d more than once", in, from, got[i])
		}
	}
	for _, id := range got {
		holds := false
		for _, s := range all {
			holds = holds || s.members[id]
		}
		if !holds {
			w.violate("C07", "not-a-subscriber", "%s from session %d goes to session %d, which holds no subscription that matches", in, from, id)
			w.violate("C08", "not-a-subscriber", "%s from session %d goes to session %d, which holds no subscription that matches", in, from, id)
			if j.lives[id] > 1 {
				w.violate("C11", "residue", "session %d was attached before and holds no such subscription now, yet %s from session %d is sent to it", id, in, from)
			}
		}
		if id == from && exclude {
			w.violate("C07", "publisher-not-excluded", "%s from session %d goes to its publisher", in, from)
		}
	}
	if len(got) > 0 && pub.Event == nil {
		w.violate("C07", "event-missing", "%s from session %d has recipients %v and no event", in, from, got)
		return
	}
	// everybody who must get it: the members of the one subscription of the
	// highest precedence; where others match too that is a known limitation.
	var chosen *mSub
	for _, s := range best {
		if len(got) > 0 {
			if pub.Event.SubscriptionID() == s.id {
				chosen = s
			}
		} else if len(members(s, from, exclude)) == 0 {
			chosen = s
		}
	}
	switch {
	case len(all) == 0:
	case chosen == nil:
		want := members(best[0], from, exclude)
		w.violate("C07", "not-delivered", "%s from session %d matches subscription %d (%s %q), whose members are %v; it goes to %v as %s", in, from, best[0].id, best[0].match, best[0].uri, want, got, canonicalEvent(pub.Event))
		w.violate("C08", "not-delivered", "%s from session %d matches the live subscription %d (%s %q), whose members are %v; it goes to %v as %s", in, from, best[0].id, best[0].match, best[0].uri, want, got, canonicalEvent(pub.Event))
		for _, id := range want {
			j.legacy(id, "%s from session %d matches subscription %d, which it holds, and goes to %v", in, from, best[0].id, got)
		}
	default:
		want := members(chosen, from, exclude)
		if fmt.Sprint(want) != fmt.Sprint(got) {
			w.violate("C07", "recipients", "%s from session %d is for subscription %d, whose members are %v; it goes to %v", in, from, chosen.id, want, got)
			for _, id := range want {
				if !contains(got, id) {
					j.legacy(id, "%s from session %d is for subscription %d, which it holds, and goes to %v", in, from, chosen.id, got)
				}
			}
			w.violate("C08", "recipients", "%s from session %d is for subscription %d, whose members are %v; it goes to %v", in, from, chosen.id, want, got)
		}
		missed := 0
		for _, s := range all {
			for _, id := range members(s, from, exclude) {
				if s != chosen || !contains(got, id) {
					missed++
				}
			}
		}
		if missed > 0 && len(all) > 1 {
			w.known("KF-A")
		}
	}
	if len(got) == 0 {
		w.count("publish-without-recipients")
		return
	}
	w.count("events-delivered")
	if got := normPayload(pub.Event.Args(), pub.Event.KwArgs()); got != normPayload(m.Args(), m.KwArgs()) {
		w.violate("C07", "payload", "%s from session %d is delivered with payload %s", in, from, got)
		w.violate("C20", "payload", "%s from session %d is delivered with payload %s", in, from, got)
	}
	if j.subs[pub.Event.SubscriptionID()] == nil {
		w.violate("C07", "subscription-id", "%s from session %d is delivered under subscription %d, which is not live", in, from, pub.Event.SubscriptionID())
	}
	// C10
	w.check("C10")
	d := pub.Event.Details()
	s := j.sess[from]
	if j.disclosePublisher {
		w.count("disclosed")
		if norm(d["publisher"]) != norm(from) || norm(d["publisher_authid"]) != norm(s.authid) || norm(d["publisher_authrole"]) != norm(s.role) {
			w.violate("C10", "publisher", "publishers are disclosed; %s from session %d (%s/%s) is delivered with details %s", in, from, s.authid, s.role, norm(d))
			j.legacy(from, "%s (%s/%s) is delivered with details %s", in, s.authid, s.role, norm(d))
		}
	} else {
		for _, k := range []string{"publisher", "publisher_authid", "publisher_authrole"} {
			if _, ok := d[k]; ok {
				w.violate("C10", "publisher-leak", "publishers are not disclosed; %s from session %d is delivered with details %s", in, from, norm(d))
			}
		}
	}
	t, ok := d["topic"]
	if ok && norm(t) != norm(m.Topic()) {
		w.violate("C10", "topic", "%s from session %d names topic %s", in, from, norm(t))
	}
	if sub := j.subs[pub.Event.SubscriptionID()]; sub != nil {
		if sub.match != "exact" && !ok {
			w.violate("C10", "topic-missing", "%s from session %d is delivered to the %s subscription %q without naming the topic", in, from, sub.match, sub.uri)
		}
		if sub.match == "exact" && ok && !j.disclosePublisher {
			w.violate("C10", "topic-leak", "%s from session %d is delivered to an exact subscription with details %s", in, from, norm(d))
		}
	}
}

func canonicalEvent(e *messages.Event) string {
	if e == nil {
		return "nothing"
	}
	return canonical(e)
}

// probeHas compares what the router says about a URI with the model.
func (j *judge) probeHas(uri string) {
	w := j.w
	var hasP, hasS bool
	if !w.guard("has", func() {
		hasP = w.dealer.HasProcedure(uri)
		hasS = w.broker.HasSubscription(uri)
	}) {
		return
	}
	w.event(fmt.Sprintf("has %q: procedure %v, subscription %v", uri, hasP, hasS))
	wantP, wantS := false, false
	for _, r := range j.regs {
		wantP = wantP || r.uri == uri
	}
	for _, s := range j.subs {
		wantS = wantS || s.uri == uri
	}
	w.check("C03")
	w.check("C08")
	if hasP != wantP {
		w.violate("C03", "has-procedure", "a live registration of %q exists: %v; the router says %v", uri, wantP, hasP)
	}
	if hasS != wantS {
		w.violate("C08", "has-subscription", "a live subscription of %q exists: %v; the router says %v", uri, wantS, hasS)
	}
}

// atEnd looks at what is left when nothing moves any more.
func (j *judge) atEnd() {
	j.byCall = map[mKey][]*mInv{}
	for _, id := range sortedIDs(j.invs) {
		inv := j.invs[id]
		k := mKey{inv.caller, inv.callReq}
		j.byCall[k] = append(j.byCall[k], inv)
	}
	w := j.w
	for _, c := range w.cl {
		if !c.live || w.bySess[c.sess] != c {
			continue
		}
		for _, req := range sortedIDs(c.outs) {
			o := c.outs[req]
			w.check("C26")
			if o.kind == "call" {
				j.unansweredCall(c, req, o)
				continue
			}
			w.violate("C26", "unanswered", "session %d never got an answer to its %s request %d", c.sess, o.kind, req)
		}
	}
}

// unansweredCall decides whether a call that never got its final answer is the router's doing.
func (j *judge) unansweredCall(c *client, req uint64, o *outReq) {
	w := j.w
	for _, inv := range j.byCall[mKey{c.sess, req}] {
		if inv.open {
			return // the callee is attached and has not answered
		}
		if inv.calleeGone {
			w.known("KF-B")
			return
		}
	}
	if _, mid := j.chunk[mKey{c.sess, req}]; mid {
		return // its final chunk was never sent
	}
	w.violate("C26", "unanswered", "session %d never got a final answer to its call %d (%s)", c.sess, req, o.tok)
}

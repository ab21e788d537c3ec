package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	rt "github.com/xconnio/wampproto-go/zzsimrt"
)

// The concurrency engines: tasks use one Dealer, Broker, client Session or
// other shared part at the same time. The simulator's scheduler decides at
// every statement which task goes on; the code runs under the race detector,
// which sees only the synchronisation that the code does itself.

// runTasks runs the bodies under the scheduler and reports what the property forbids in any schedule.
func (c *ctx) runTasks(p *Plan, bodies []func()) bool {
	cfg := rt.SchedConfig{Seed: rt.Mix(p.Seed, 0x5ced), Mean: p.cfg("mean"), Limit: 400000}
	if !p.FreeSched && p.Sched != nil {
		cfg.Replay, cfg.Plan = true, p.Sched
	}
	before := rt.RaceErrors()
	out := rt.RunTasks(cfg, bodies)
	races := rt.RaceErrors() - before
	c.res.Decided = out.Decisions
	if c.res.Decided == nil {
		c.res.Decided = []rt.Decision{}
	}
	c.res.Stats["yield-points"] += int64(out.Steps)
	c.res.Stats["task-switches"] += int64(len(out.Decisions))
	c.check(p.Prop)
	for _, d := range out.Decisions {
		c.event(fmt.Sprintf("switch %d/%d/%d->%d", d.Task, d.Op, d.Y, d.To))
	}
	switch out.Outcome {
	case rt.RunDeadlock:
		c.violate(p.Prop, "deadlock", "%s", out.Detail)
	case rt.RunLivelock:
		c.violate(p.Prop, "livelock", "%s", out.Detail)
	case rt.RunPanic:
		c.violate(p.Prop, "crash", "%s", out.Detail)
	}
	if races > 0 && !c.failed() {
		c.violate(p.Prop, "data-race", "the race detector reports %d data race(s)%s", races, raceDetail())
	}
	return !c.failed()
}

// raceDetail names the functions of the race that the detector reported last.
func raceDetail() string {
	var prefix string
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			prefix = strings.TrimPrefix(f, "log_path=")
		}
	}
	if prefix == "" {
		return ""
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", prefix, os.Getpid()))
	if err != nil {
		names, _ := filepath.Glob(prefix + ".*")
		if len(names) == 0 {
			return ""
		}
		b, _ = os.ReadFile(names[0])
	}
	text := string(b)
	if i := strings.LastIndex(text, "WARNING: DATA RACE"); i >= 0 {
		text = text[i:]
	}
	out := ""
	lines := strings.Split(text, "\n")
	for i, l := range lines {
		if strings.Contains(l, " at 0x") && i+1 < len(lines) && out == "" || strings.HasPrefix(l, "Previous") && i+1 < len(lines) {
			fn := strings.TrimSpace(lines[i+1])
			out += fmt.Sprintf("; %s in %s", strings.ToLower(strings.Fields(l)[0]), fn[strings.LastIndex(fn, "/")+1:])
		}
	}
	return out
}

// ---------------------------------------------------------------- histories

type kid struct {
	kind byte
	id   uint64
}

// opRes is what one operation returned, with the ids that the implementation chose taken out.
type opRes struct {
	skip bool
	text string
	ids  []kid
	to   uint64
	id   uint64 // the id that later operations refer to
}

type opRec struct {
	s          Step
	res        opRes
	start, end int
	phase      int // 0 setup, 1 concurrent, 2 probe
}

type routerSys struct {
	dealer *wampproto.Dealer
	broker *wampproto.Broker
}

func newRouterSys() *routerSys {
	return &routerSys{wampproto.NewDealer(), wampproto.NewBroker()}
}

func sessDetails(id uint64) *wampproto.SessionDetails {
	return wampproto.NewSessionDetails(id, "realm1", fmt.Sprintf("user%d", id), fmt.Sprintf("role%d", id), "anonymous", false, nil, nil)
}

func resOf(m *wampproto.MessageWithRecipient, err error) opRes {
	if err != nil {
		return opRes{text: "error"}
	}
	if m == nil || m.Message == nil {
		return opRes{text: "nothing"}
	}
	r := opRes{to: m.Recipient}
	switch x := m.Message.(type) {
	case *messages.Registered:
		r.text = fmt.Sprintf("REGISTERED(%d)", x.RequestID())
		r.ids, r.id = []kid{{'r', x.RegistrationID()}}, x.RegistrationID()
	case *messages.Subscribed:
		r.text = fmt.Sprintf("SUBSCRIBED(%d)", x.RequestID())
		r.ids, r.id = []kid{{'s', x.SubscriptionID()}}, x.SubscriptionID()
	case *messages.Invocation:
		r.text = fmt.Sprintf("INVOCATION(%s %s)", norm(x.Details()), normPayload(x.Args(), x.KwArgs()))
		r.ids, r.id = []kid{{'i', x.RequestID()}, {'r', x.RegistrationID()}}, x.RequestID()
	case *messages.Published:
		r.text = fmt.Sprintf("PUBLISHED(%d)", x.RequestID())
		r.ids = []kid{{'p', x.PublicationID()}}
	default:
		r.text = norm(m.Message.Marshal())
	}
	r.text += fmt.Sprintf(" to %d", m.Recipient)
	return r
}

// exec performs one operation of a history on sys. refs finds the result of an earlier operation.
func execOp(sys *routerSys, s Step, refs func(i int) *opRes) opRes {
	a := uint64(s.A)
	req := uint64(100 + s.I)
	opts := map[string]any{}
	if s.Op == "reg" || s.Op == "sub" {
		if m := matchNames[s.B]; m != "" {
			opts["match"] = m
		}
		if s.Op == "reg" && invokeNames[s.D] != "" {
			opts["invoke"] = invokeNames[s.D]
		}
	}
	errRes := func(err error) opRes {
		if err != nil {
			return opRes{text: "error"}
		}
		return opRes{text: "ok"}
	}
	payload := []any{s.I, "x"}
	switch s.Op {
	case "attach":
		e1 := sys.dealer.AddSession(sessDetails(a))
		return errRes(e1)
	case "detach":
		return errRes(sys.dealer.RemoveSession(a))
	case "battach":
		return errRes(sys.broker.AddSession(sessDetails(a)))
	case "bdetach":
		return errRes(sys.broker.RemoveSession(a))
	case "disclose":
		sys.dealer.AutoDiscloseCaller(s.B == 1)
		return opRes{text: "ok"}
	case "bdisclose":
		sys.broker.AutoDisclosePublisher(s.B == 1)
		return opRes{text: "ok"}
	case "has":
		return opRes{text: fmt.Sprint(sys.dealer.HasProcedure(s.U))}
	case "bhas":
		return opRes{text: fmt.Sprint(sys.broker.HasSubscription(s.U))}
	case "reg":
		return resOf(sys.dealer.ReceiveMessage(a, messages.NewRegister(req, opts, s.U)))
	case "unreg":
		ref := refs(s.F)
		if ref == nil || ref.id == 0 {
			return opRes{skip: true}
		}
		return resOf(sys.dealer.ReceiveMessage(a, messages.NewUnregister(req, ref.id)))
	case "call":
		if s.B&1 != 0 {
			opts["receive_progress"] = true
		}
		if s.B&2 != 0 {
			opts["progress"] = true
		}
		if s.B&4 != 0 { // a further chunk of an earlier call
			req = uint64(100 + s.F)
		}
		return resOf(sys.dealer.ReceiveMessage(a, messages.NewCall(req, opts, s.U, payload, nil)))
	case "yield", "err":
		ref := refs(s.F)
		if ref == nil || ref.id == 0 {
			return opRes{skip: true}
		}
		from := ref.to
		if s.A != 0 {
			from = a
		}
		if s.Op == "err" {
			return resOf(sys.dealer.ReceiveMessage(from, messages.NewError(messages.MessageTypeInvocation, ref.id, nil, "com.err", payload, nil)))
		}
		if s.B&1 != 0 {
			opts["progress"] = true
		}
		return resOf(sys.dealer.ReceiveMessage(from, messages.NewYield(ref.id, opts, payload, nil)))
	case "sub":
		return resOf(sys.broker.ReceiveMessage(a, messages.NewSubscribe(req, opts, s.U)))
	case "unsub":
		ref := refs(s.F)
		if ref == nil || ref.id == 0 {
			return opRes{skip: true}
		}
		return resOf(sys.broker.ReceiveMessage(a, messages.NewUnsubscribe(req, ref.id)))
	case "pub":
		if s.B&1 != 0 {
			opts["acknowledge"] = true
		}
		if s.B&2 != 0 {
			opts["exclude_me"] = false
		}
		p, err := sys.broker.ReceivePublish(a, messages.NewPublish(req, opts, s.U, payload, nil))
		if err != nil {
			return opRes{text: "error"}
		}
		if p == nil {
			return opRes{text: "nothing"}
		}
		r := opRes{}
		to := append([]uint64(nil), p.Recipients...)
		sort.Slice(to, func(i, j int) bool { return to[i] < to[j] })
		r.text = fmt.Sprintf("to %v", to)
		if p.Event != nil && len(to) > 0 {
			r.text += fmt.Sprintf(" EVENT(%s %s)", norm(p.Event.Details()), normPayload(p.Event.Args(), p.Event.KwArgs()))
			r.ids = append(r.ids, kid{'s', p.Event.SubscriptionID()}, kid{'p', p.Event.PublicationID()})
		}
		if p.Ack != nil {
			x := resOf(p.Ack, nil)
			r.text += " ack " + x.text
			r.ids = append(r.ids, x.ids...)
		}
		return r
	}
	panic("unknown operation " + s.Op)
}

// ---------------------------------------------------------------- linearizability

type linState struct {
	sys     *routerSys
	results map[int]*opRes // by step identity
	fwd     map[kid]uint64 // id in the history -> id in the sequential execution
	back    map[kid]uint64
}

func newLinState() *linState {
	return &linState{sys: newRouterSys(), results: map[int]*opRes{}, fwd: map[kid]uint64{}, back: map[kid]uint64{}}
}

// apply executes a recorded operation and tells whether it gives the recorded result.
func (l *linState) apply(rec *opRec) (ok bool, got opRes) {
	crash := protect(func() {
		got = execOp(l.sys, rec.s, func(i int) *opRes { return l.results[i] })
	})
	if crash != "" {
		return false, opRes{text: "crash " + crash}
	}
	l.results[rec.s.I] = &got
	if got.skip || got.text != rec.res.text || len(got.ids) != len(rec.res.ids) {
		return false, got
	}
	for k, h := range rec.res.ids {
		s := got.ids[k]
		if s.kind != h.kind {
			return false, got
		}
		f, ok1 := l.fwd[h]
		b, ok2 := l.back[s]
		if (ok1 && f != s.id) || (ok2 && b != h.id) {
			return false, got
		}
		l.fwd[h], l.back[s] = s.id, h.id
	}
	return true, got
}

// linearizable searches an order of the concurrent operations, consistent with
// what happened before what, in which the same code run by one task gives the
// results that were seen. It returns the order, and false if there is none.
func linearizable(recs []*opRec, budget *int) (order []int, ok bool, known bool) {
	n := len(recs)
	done := make([]bool, n)
	known = true
	var rec func(l *linState, path []int) bool
	rec = func(l *linState, path []int) bool {
		if len(path) == n {
			order = append([]int(nil), path...)
			return true
		}
		// an operation may come next if no other undone one ended before it began
		minEnd := 1 << 60
		for i := range recs {
			if !done[i] && recs[i].end < minEnd {
				minEnd = recs[i].end
			}
		}
		first := true
		for i := range recs {
			if done[i] || recs[i].start > minEnd {
				continue
			}
			if *budget <= 0 {
				known = false
				return false
			}
			*budget--
			cur := l
			if !first {
				cur = newLinState()
				for _, j := range path {
					cur.apply(recs[j])
				}
			}
			first = false
			if ok, _ := cur.apply(recs[i]); !ok {
				continue
			}
			done[i] = true
			if rec(cur, append(path, i)) {
				return true
			}
			done[i] = false
			if !known {
				return false
			}
		}
		return false
	}
	ok = rec(newLinState(), nil)
	return order, ok, known
}

func runRouterConc(p *Plan, trace bool) *Result {
	c := newCtx(p.Prop, trace)
	rt.SeedRand(rt.Mix(p.Seed, 1))
	rt.SeedMaps(rt.Mix(p.Seed, 2))
	rt.SetClock(1_700_000_000_000_000_000, nil)
	rt.SingleTask(true)
	defer rt.SingleTask(false)
	sys := newRouterSys()
	tasks := p.cfg("tasks")
	results := map[int]*opRes{}
	var recs []*opRec
	stamp := 0
	sequential := func(phase int) bool {
		for i := range p.Steps {
			s := p.Steps[i]
			if s.D2() != phase {
				continue
			}
			var res opRes
			crash := protect(func() { res = execOp(sys, s, func(i int) *opRes { return results[i] }) })
			if crash != "" {
				c.violate(p.Prop, "crash", "%s %s after concurrent use: %s", s.Op, s.U, crash)
				return false
			}
			if res.skip {
				continue
			}
			results[s.I] = &res
			stamp++
			recs = append(recs, &opRec{s: s, res: res, start: stamp, end: stamp, phase: phase})
			c.event(fmt.Sprintf("phase %d: %s %d %q = %s %v", phase, s.Op, s.A, s.U, res.text, res.ids))
		}
		return true
	}
	if !sequential(0) {
		return c.done()
	}
	rt.SingleTask(false)
	// the concurrent part: each task has its own results, and those of the set-up to look at.
	own := make([]map[int]*opRes, tasks)
	recorded := make([][]*opRec, tasks)
	var bodies []func()
	for t := 0; t < tasks; t++ {
		t := t
		own[t] = map[int]*opRes{}
		var mine []Step
		for _, s := range p.Steps {
			if s.D2() == 1 && s.C == t {
				mine = append(mine, s)
			}
		}
		bodies = append(bodies, func() {
			for k, s := range mine {
				rt.BeginOp(k)
				start := rt.Stamp()
				res := execOp(sys, s, func(i int) *opRes {
					if r := own[t][i]; r != nil {
						return r
					}
					return results[i]
				})
				end := rt.Stamp()
				if res.skip {
					continue
				}
				own[t][s.I] = &res
				recorded[t] = append(recorded[t], &opRec{s: s, res: res, start: start, end: end, phase: 1})
			}
		})
	}
	okRun := c.runTasks(p, bodies)
	for t := range recorded {
		for _, r := range recorded[t] {
			c.event(fmt.Sprintf("task %d [%d,%d]: %s %d %q = %s %v", t, r.start, r.end, r.s.Op, r.s.A, r.s.U, r.res.text, r.res.ids))
		}
	}
	if !okRun {
		return c.done()
	}
	rt.SingleTask(true)
	base := stamp
	maxEnd := base
	overlap := false
	for t := range recorded {
		for _, r := range recorded[t] {
			r.start += base
			r.end += base
			if r.end > maxEnd {
				maxEnd = r.end
			}
			recs = append(recs, r)
			results[r.s.I] = &r.res
		}
	}
	for _, x := range recs {
		for _, y := range recs {
			if x != y && x.phase == 1 && y.phase == 1 && x.start < y.end && y.start < x.end {
				overlap = true
			}
		}
	}
	if overlap {
		c.count("runs-with-overlap")
	}
	stamp = maxEnd
	if !sequential(2) {
		return c.done()
	}
	c.check(p.Prop)
	if bad := duplicateIDs(recs); bad != "" {
		c.violate(p.Prop, "ids-repeated", "%s", bad)
		return c.done()
	}
	sort.SliceStable(recs, func(i, j int) bool { return recs[i].end < recs[j].end })
	budget := 4000
	order, ok, known := linearizable(recs, &budget)
	if !known {
		c.count("linearizability-undecided")
		return c.done()
	}
	if !ok {
		c.violate(p.Prop, "not-linearizable", "no order of the concurrent operations explains the results: %s", describeHistory(recs))
		return c.done()
	}
	c.res.Stats["linearized-ops"] += int64(len(order))
	return c.done()
}

// duplicateIDs: an invocation id or publication id stands for one invocation or publication only.
func duplicateIDs(recs []*opRec) string {
	seen := map[kid]Step{}
	chunk := map[string]bool{}
	for _, r := range recs {
		if r.s.Op == "call" && r.s.B&4 != 0 {
			chunk[fmt.Sprint(r.s.F)] = true
		}
	}
	for _, r := range recs {
		own := map[kid]bool{}
		for _, k := range r.res.ids {
			if (k.kind != 'i' && k.kind != 'p') || own[k] {
				continue
			}
			own[k] = true
			if prev, ok := seen[k]; ok {
				if k.kind == 'i' && (r.s.B&4 != 0 || prev.B&4 != 0) {
					continue // chunks of one call
				}
				return fmt.Sprintf("%s %q and %s %q both got id %d", prev.Op, prev.U, r.s.Op, r.s.U, k.id)
			}
			seen[k] = r.s
		}
	}
	return ""
}

func describeHistory(recs []*opRec) string {
	var b strings.Builder
	for _, r := range recs {
		if r.phase == 0 {
			continue
		}
		who := fmt.Sprintf("task %d", r.s.C)
		if r.phase == 2 {
			who = "afterwards"
		}
		fmt.Fprintf(&b, "[%d,%d] %s: %s(%d %q ref %d)=%s %v; ", r.start, r.end, who, r.s.Op, r.s.A, r.s.U, r.s.F, r.res.text, r.res.ids)
	}
	return b.String()
}

// D2 is the phase of a step in a concurrency plan.
func (s Step) D2() int {
	switch s.S {
	case "setup":
		return 0
	case "probe":
		return 2
	}
	return 1
}

func genRouterConc(prop string, seed uint64, tier string) *Plan {
	r := rt.NewPRNG(rt.Mix(seed, 0xc0))
	p := &Plan{Prop: prop, Engine: "routerconc", Seed: seed, FreeSched: true, Cfg: map[string]int{}}
	dealer := prop == "C23"
	tasks := 2 + r.N(2)
	p.Cfg["tasks"] = tasks
	p.Cfg["mean"] = []int{1, 2, 5, 15, 50}[r.N(5)]
	uris := []string{"a", "a.b", "a.b.c"}[:1+r.N(3)]
	type refStep struct {
		i    int
		sess int
	}
	setupRegs, setupCalls := []refStep{}, []refStep{}
	taskRegs := make([][]refStep, tasks)
	taskCalls := make([][]refStep, tasks)
	add := func(s Step) int {
		s.I = len(p.Steps)
		p.Steps = append(p.Steps, s)
		return s.I
	}
	sessions := 2 + r.N(3)
	attached := 0
	pre := ""
	if !dealer {
		pre = "b"
	}
	for s := 1; s <= sessions; s++ {
		if s == 1 || r.N(5) > 0 {
			add(Step{S: "setup", Op: pre + "attach", A: s})
			attached++
		}
	}
	// in some runs the tasks act for one session mostly: a departure, say, overlaps its own requests.
	hot := r.N(3) == 0
	concurrent := false
	sess := func() int {
		if hot && concurrent && r.N(4) > 0 {
			return 1
		}
		return 1 + r.N(sessions)
	}
	wild := r.N(3) == 0
	entity := func() (string, int) { // uri and match
		switch r.N(5) {
		case 0:
			return "a", 2
		case 1:
			if wild {
				return "a.*", 3
			}
			return "a.", 2
		}
		return uris[r.N(len(uris))], 0
	}
	policy := []int{0, 2, 3, 4}[r.N(4)]
	step := func(where string, task int) {
		s := Step{S: where, C: task, A: sess()}
		regs := append(append([]refStep{}, setupRegs...), nil...)
		calls := append([]refStep{}, setupCalls...)
		if task >= 0 && where == "" {
			regs = append(regs, taskRegs[task]...)
			calls = append(calls, taskCalls[task]...)
		}
		note := func(list *[]refStep, tl [][]refStep, i int) {
			if where == "setup" {
				*list = append(*list, refStep{i, s.A})
			} else if where == "" {
				tl[task] = append(tl[task], refStep{i, s.A})
			}
		}
		k := r.N(100)
		if dealer {
			switch {
			case k < 28:
				s.Op = "reg"
				s.U, s.B = entity()
				s.D = policy
				if r.N(6) == 0 {
					s.D = []int{0, 2, 3, 4}[r.N(4)]
				}
				note(&setupRegs, taskRegs, add(s))
			case k < 42:
				if len(regs) == 0 {
					return
				}
				x := regs[r.N(len(regs))]
				s.Op, s.F = "unreg", x.i
				if r.N(5) > 0 {
					s.A = x.sess
				}
				add(s)
			case k < 66:
				s.Op, s.U = "call", uris[r.N(len(uris))]
				s.B = r.N(2)
				if r.N(6) == 0 {
					s.B |= 2
				}
				if len(calls) > 0 && r.N(8) == 0 {
					x := calls[r.N(len(calls))]
					s.B |= 4
					s.F, s.A, s.U = x.i, x.sess, p.Steps[x.i].U
				}
				i := add(s)
				if s.B&4 == 0 {
					note(&setupCalls, taskCalls, i)
				}
			case k < 82:
				if len(calls) == 0 {
					return
				}
				x := calls[r.N(len(calls))]
				s.Op, s.F, s.B = []string{"yield", "yield", "err"}[r.N(3)], x.i, r.N(2)
				if r.N(6) > 0 {
					s.A = 0
				}
				add(s)
			case k < 88 || hot && concurrent && k < 92:
				s.Op = "detach"
				add(s)
			case k < 93:
				s.Op = "attach"
				add(s)
			case k < 97:
				s.Op = "has"
				s.U, _ = entity()
				add(s)
			default:
				s.Op, s.B = "disclose", r.N(2)
				add(s)
			}
			return
		}
		switch {
		case k < 30:
			s.Op = "sub"
			s.U, s.B = entity()
			note(&setupRegs, taskRegs, add(s))
		case k < 46:
			if len(regs) == 0 {
				return
			}
			x := regs[r.N(len(regs))]
			s.Op, s.F = "unsub", x.i
			if r.N(5) > 0 {
				s.A = x.sess
			}
			add(s)
		case k < 80 && !(hot && concurrent && r.N(3) == 0):
			s.Op, s.U, s.B = "pub", uris[r.N(len(uris))], r.N(4)
			add(s)
		case k < 86:
			s.Op = "bdetach"
			add(s)
		case k < 91:
			s.Op = "battach"
			add(s)
		case k < 96:
			s.Op = "bhas"
			s.U, _ = entity()
			add(s)
		default:
			s.Op, s.B = "bdisclose", r.N(2)
			add(s)
		}
	}
	for k := r.N(9); k > 0; k-- {
		step("setup", -1)
	}
	concurrent = true
	for t := 0; t < tasks; t++ {
		for k := 1 + r.N(4); k > 0; k-- {
			step("", t)
		}
	}
	concurrent = false
	// afterwards: what is left must agree with some order of what happened.
	probeURIs := append([]string{}, "a", "a.b", "a.b.c")
	for s := 1; s <= sessions; s++ {
		if r.N(4) == 0 {
			add(Step{S: "probe", Op: pre + "attach", A: s})
		}
	}
	add(Step{S: "probe", Op: pre + "attach", A: 9})
	for _, u := range probeURIs {
		add(Step{S: "probe", Op: pre + "has", U: u})
		if dealer {
			for k := 1 + r.N(3); k > 0; k-- {
				i := add(Step{S: "probe", Op: "call", A: 9, U: u})
				if r.N(2) == 0 {
					add(Step{S: "probe", Op: "yield", F: i})
				}
			}
		} else {
			add(Step{S: "probe", Op: "pub", A: 9, U: u, B: 1})
		}
	}
	all := append([]refStep{}, setupRegs...)
	allCalls := append([]refStep{}, setupCalls...)
	for t := 0; t < tasks; t++ {
		all = append(all, taskRegs[t]...)
		allCalls = append(allCalls, taskCalls[t]...)
	}
	for _, x := range allCalls {
		if r.N(2) == 0 {
			add(Step{S: "probe", Op: "yield", F: x.i})
		}
	}
	for _, x := range all {
		op := "unreg"
		if !dealer {
			op = "unsub"
		}
		add(Step{S: "probe", Op: op, A: x.sess, F: x.i})
		if r.N(3) == 0 {
			add(Step{S: "probe", Op: pre + "has", U: p.Steps[x.i].U})
		}
	}
	for _, u := range probeURIs {
		add(Step{S: "probe", Op: pre + "has", U: u})
	}
	return p
}

// ---------------------------------------------------------------- client session

type sessRec struct {
	s          Step
	msg        messages.Message
	send       bool
	ok         bool
	start, end int
}

func runSessConc(p *Plan, trace bool) *Result {
	c := newCtx(p.Prop, trace)
	rt.SeedRand(rt.Mix(p.Seed, 1))
	rt.SeedMaps(rt.Mix(p.Seed, 2))
	rt.SetClock(1_700_000_000_000_000_000, nil)
	ser := serializerOf(p.cfg("ser"))
	sess := wampproto.NewSession(ser)
	tasks := p.cfg("tasks")
	do := func(s Step, msg messages.Message) (err error) {
		if s.Op == "send" {
			_, err = sess.SendMessage(msg)
			return err
		}
		if p.cfg("wire") == 1 {
			data, e := ser.Serialize(msg)
			if e != nil {
				return e
			}
			_, err = sess.Receive(data)
			return err
		}
		_, err = sess.ReceiveMessage(msg)
		return err
	}
	build := func(s Step) messages.Message {
		r := rt.NewPRNG(rt.Mix(p.Seed^0xc11e, uint64(s.I)))
		return clientMessage(s, &r)
	}
	model := newClientModel()
	var recs []*sessRec
	seq := func(phase int, stamp int) int {
		for _, s := range p.Steps {
			if s.D2() != phase {
				continue
			}
			msg := build(s)
			var err error
			if crash := protect(func() { err = do(s, msg) }); crash != "" {
				c.violate(p.Prop, "crash", "%s of %s: %s", s.Op, typeName(msg), crash)
				return stamp
			}
			stamp++
			recs = append(recs, &sessRec{s: s, msg: msg, send: s.Op == "send", ok: err == nil, start: stamp, end: stamp})
			c.event(fmt.Sprintf("phase %d: %s %s(%s) ok=%v", phase, s.Op, typeName(msg), norm(briefly(msg)), err == nil))
		}
		return stamp
	}
	stamp := seq(0, 0)
	recorded := make([][]*sessRec, tasks)
	var bodies []func()
	for t := 0; t < tasks; t++ {
		t := t
		var mine []*sessRec
		for _, s := range p.Steps {
			if s.D2() == 1 && s.C == t {
				mine = append(mine, &sessRec{s: s, msg: build(s), send: s.Op == "send"})
			}
		}
		recorded[t] = mine
		bodies = append(bodies, func() {
			for k, m := range mine {
				rt.BeginOp(k)
				m.start = rt.Stamp()
				m.ok = do(m.s, m.msg) == nil
				m.end = rt.Stamp()
			}
		})
	}
	if !c.runTasks(p, bodies) {
		return c.done()
	}
	base, maxEnd := stamp, stamp
	for t := range recorded {
		for _, m := range recorded[t] {
			m.start += base
			m.end += base
			if m.end > maxEnd {
				maxEnd = m.end
			}
			recs = append(recs, m)
			c.event(fmt.Sprintf("task %d [%d,%d]: %s %s(%s) ok=%v", t, m.start, m.end, m.s.Op, typeName(m.msg), norm(briefly(m.msg)), m.ok))
		}
	}
	seq(2, maxEnd)
	if c.failed() {
		return c.done()
	}
	sort.SliceStable(recs, func(i, j int) bool { return recs[i].end < recs[j].end })
	n := len(recs)
	done := make([]bool, n)
	budget := 60000
	var rec func(m *clientModel, left int) bool
	rec = func(m *clientModel, left int) bool {
		if left == 0 {
			return true
		}
		minEnd := 1 << 60
		for i := range recs {
			if !done[i] && recs[i].end < minEnd {
				minEnd = recs[i].end
			}
		}
		for i, r := range recs {
			if done[i] || r.start > minEnd {
				continue
			}
			if budget--; budget < 0 {
				return true
			}
			next := m.clone()
			var v int
			if r.send {
				if v = next.maySend(r.msg); v != mustRefuse {
					next.sent(r.msg)
				}
			} else {
				v = next.receive(r.msg)
				if v == mustRefuse {
					next = m.clone()
				}
			}
			if (v == mustAccept && !r.ok) || (v == mustRefuse && r.ok) {
				continue
			}
			done[i] = true
			if rec(next, left-1) {
				return true
			}
			done[i] = false
		}
		return false
	}
	c.check(p.Prop)
	if !rec(model, n) {
		var b strings.Builder
		for _, r := range recs {
			fmt.Fprintf(&b, "[%d,%d] %s %s(%s) ok=%v; ", r.start, r.end, r.s.Op, typeName(r.msg), norm(briefly(r.msg)), r.ok)
		}
		c.violate(p.Prop, "not-linearizable", "no order of the concurrent operations explains the results: %s", b.String())
	}
	if budget < 0 {
		c.count("linearizability-undecided")
	}
	return c.done()
}

func genSessConc(prop string, seed uint64, tier string) *Plan {
	r := rt.NewPRNG(rt.Mix(seed, 0x5e55))
	p := &Plan{Prop: prop, Engine: "sessconc", Seed: seed, FreeSched: true, Cfg: map[string]int{}}
	tasks := 2 + r.N(2)
	p.Cfg["tasks"] = tasks
	p.Cfg["mean"] = []int{1, 2, 5, 15}[r.N(4)]
	p.Cfg["ser"] = r.N(3)
	p.Cfg["wire"] = r.N(2)
	ids, refs := 1+r.N(3), 1+r.N(2)
	add := func(s Step) {
		s.I = len(p.Steps)
		p.Steps = append(p.Steps, s)
	}
	used := map[[2]int]bool{}
	send := func(where string, task int) {
		s := Step{S: where, C: task, Op: "send", A: []int{0, 0, 1, 2, 3, 4, 5, 6, 7}[r.N(9)], B: r.N(ids), D: r.N(refs)}
		if r.N(2) == 0 {
			s.F |= 4
		}
		if r.N(4) == 0 {
			s.F |= 1
		}
		if where == "" && (s.A == 1 || s.A == 7) {
			s.B += 10 // replies to invocations that are not being received at the same time
		}
		if s.A == 3 || s.A == 6 {
			// the client gives each of its requests to leave an id of its own
			for used[[2]int{s.A, s.B}] {
				s.B++
			}
			used[[2]int{s.A, s.B}] = true
		}
		add(s)
	}
	recv := func(where string, task int, only bool) {
		s := Step{S: where, C: task, Op: "recv", A: r.N(9), B: r.N(ids), D: r.N(refs)}
		if (s.A == 2 || s.A == 6) && r.N(3) == 0 {
			s.B += r.N(3)
		}
		if only {
			s.A = []int{0, 0, 4, 8}[r.N(4)]
		}
		if s.A == 8 {
			s.D = r.N(6)
		}
		if r.N(5) == 0 {
			s.F |= 1
		}
		add(s)
	}
	for k := r.N(10); k > 0; k-- {
		if r.N(2) == 0 {
			send("setup", -1)
		} else {
			recv("setup", -1, false)
		}
	}
	for k := r.N(3); k > 0; k-- { // invocations to answer
		add(Step{S: "setup", Op: "recv", A: 3, B: 10 + r.N(ids), D: r.N(refs)})
	}
	// one task reads the connection, the others send. In some runs a second one
	// is handed the same replies: each must be taken once only.
	double := r.N(3) == 0
	for t := 0; t < tasks; t++ {
		for k := 1 + r.N(4); k > 0; k-- {
			switch {
			case t == 0:
				recv("", t, double)
			case double && t == 1:
				recv("", t, true)
			default:
				send("", t)
			}
		}
	}
	for i := 0; i < ids; i++ {
		for k := 0; k < 9; k++ {
			if r.N(2) == 0 {
				s := Step{S: "probe", Op: "recv", A: k, B: i, D: r.N(refs)}
				if k == 8 {
					s.D = r.N(6)
				}
				add(s)
			}
		}
	}
	for k := 0; k < refs; k++ {
		add(Step{S: "probe", Op: "recv", A: 7, B: 0, D: k})
		add(Step{S: "probe", Op: "send", A: 6, B: 0, D: k})
	}
	return p
}

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"unsafe"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	rt "github.com/xconnio/wampproto-go/zzsimrt"
)

const idLimit = uint64(1) << 53

// ---------------------------------------------------------------- session scope

// setCounter looks for the field of a generator that counts what it handed
// out, and moves it forward, so that what happens 2^53 ids later can be seen.
func setCounter(g *wampproto.SessionScopeIDGenerator, handedOut, to uint64) bool {
	v := reflect.ValueOf(g).Elem()
	if v.Kind() != reflect.Struct {
		return false
	}
	var walk func(v reflect.Value, depth int) bool
	walk = func(v reflect.Value, depth int) bool {
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanAddr() {
				continue
			}
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			switch f.Kind() {
			case reflect.Uint64, reflect.Uint:
				if f.Uint() == handedOut {
					f.SetUint(to)
					return true
				}
				if f.Uint() == handedOut+1 {
					f.SetUint(to + 1)
					return true
				}
			case reflect.Int64, reflect.Int:
				if f.Int() == int64(handedOut) {
					f.SetInt(int64(to))
					return true
				}
				if f.Int() == int64(handedOut)+1 {
					f.SetInt(int64(to) + 1)
					return true
				}
			case reflect.Struct:
				name := f.Type().String()
				if depth < 3 && !strings.Contains(name, "Mutex") && !strings.Contains(name, "lockState") && walk(f, depth+1) {
					return true
				}
			}
		}
		return false
	}
	return walk(v, 0)
}

func runIDs(p *Plan, trace bool) *Result {
	c := newCtx(p.Prop, trace)
	rt.SeedRand(rt.Mix(p.Seed, 1))
	tasks, gens := p.cfg("tasks"), p.cfg("gens")
	type state struct {
		g    *wampproto.SessionScopeIDGenerator
		last uint64
	}
	var all []*state
	seqFrom := func(st *state, n int) bool {
		for i := 0; i < n; i++ {
			var id uint64
			if crash := protect(func() { id = st.g.NextID() }); crash != "" {
				c.violate(p.Prop, "crash", "NextID crashes: %s", crash)
				return false
			}
			want := st.last%idLimit + 1
			c.check(p.Prop)
			if id != want {
				c.violate(p.Prop, "not-sequential", "after id %d comes %d, expected %d", st.last, id, want)
				return false
			}
			st.last = id
		}
		return true
	}
	rt.SingleTask(true)
	defer rt.SingleTask(false)
	for i := 0; i < gens; i++ {
		st := &state{g: &wampproto.SessionScopeIDGenerator{}}
		if i < p.cfg("wrapped") {
			const k = 5
			if !seqFrom(st, k) {
				return c.done()
			}
			to := idLimit - uint64(p.cfg("before"))
			moved := setCounter(st.g, k, to)
			if moved {
				st.last = to
				// only a generator that goes on from where it was put counts as understood.
				var id uint64
				if crash := protect(func() { id = st.g.NextID() }); crash == "" && id == to+1 {
					st.last = id
					c.count("fault:id-counter-near-its-end")
				} else {
					moved = false
				}
			}
			if !moved {
				c.count("wrap-not-reachable")
				st = &state{g: &wampproto.SessionScopeIDGenerator{}}
			}
		}
		if !seqFrom(st, p.cfg("pre")) {
			return c.done()
		}
		all = append(all, st)
	}
	type got struct {
		gen, start, end, task int
		id                    uint64
	}
	recorded := make([][]got, tasks)
	var bodies []func()
	for t := 0; t < tasks; t++ {
		t := t
		var mine []Step
		for _, s := range p.Steps {
			if s.C == t {
				mine = append(mine, s)
			}
		}
		bodies = append(bodies, func() {
			for k, s := range mine {
				rt.BeginOp(k)
				g := s.A % gens
				x := got{gen: g, task: t, start: rt.Stamp()}
				x.id = all[g].g.NextID()
				x.end = rt.Stamp()
				recorded[t] = append(recorded[t], x)
			}
		})
	}
	rt.SingleTask(false)
	okRun := c.runTasks(p, bodies)
	rt.SingleTask(true)
	byGen := make([][]got, gens)
	for t := range recorded {
		for _, x := range recorded[t] {
			byGen[x.gen] = append(byGen[x.gen], x)
			c.event(fmt.Sprintf("task %d [%d,%d] generator %d: %d", t, x.start, x.end, x.gen, x.id))
		}
	}
	if !okRun {
		return c.done()
	}
	for g, list := range byGen {
		// position of an id after the last sequential one
		pos := func(id uint64) uint64 {
			if id < 1 || id > idLimit {
				return 0
			}
			return (id + idLimit - all[g].last - 1) % idLimit
		}
		seen := map[uint64]bool{}
		for _, x := range list {
			c.check(p.Prop)
			if x.id < 1 || x.id > idLimit {
				c.violate(p.Prop, "out-of-range", "id %d is outside 1..2^53", x.id)
			} else if seen[x.id] {
				c.violate(p.Prop, "id-repeated", "id %d was handed out twice", x.id)
			} else if pos(x.id) >= uint64(len(list)) {
				c.violate(p.Prop, "not-sequential", "%d tasks took %d ids after %d, one of them is %d", tasks, len(list), all[g].last, x.id)
			}
			seen[x.id] = true
		}
		for _, x := range list {
			for _, y := range list {
				if x.end < y.start && pos(x.id) > pos(y.id) && !c.failed() {
					c.violate(p.Prop, "out-of-order", "id %d was handed out before id %d was asked for", x.id, y.id)
				}
			}
		}
		all[g].last = (all[g].last+uint64(len(list))-1)%idLimit + 1
		if !c.failed() && !seqFrom(all[g], 3) {
			return c.done()
		}
	}
	return c.done()
}

func genIDs(prop string, seed uint64, tier string) *Plan {
	r := rt.NewPRNG(rt.Mix(seed, 0x1d5))
	p := &Plan{Prop: prop, Engine: "ids", Seed: seed, FreeSched: true, Cfg: map[string]int{}}
	tasks := 2 + r.N(4)
	p.Cfg["tasks"] = tasks
	p.Cfg["gens"] = 1 + r.N(2)
	p.Cfg["wrapped"] = r.N(p.Cfg["gens"] + 1)
	p.Cfg["before"] = 2 + r.N(8)
	p.Cfg["pre"] = r.N(6)
	p.Cfg["mean"] = []int{1, 1, 2, 4}[r.N(4)]
	for t := 0; t < tasks; t++ {
		for k := 1 + r.N(6); k > 0; k-- {
			p.Steps = append(p.Steps, Step{I: len(p.Steps), C: t, Op: "next", A: r.N(p.Cfg["gens"])})
		}
	}
	return p
}

// ---------------------------------------------------------------- global scope

func init() { extraModes["ids"] = idsChild }

// idsChild N: a process that has just started prints the first global ids it makes.
func idsChild(args []string) {
	var n int
	fmt.Sscan(args[0], &n)
	json.NewEncoder(os.Stdout).Encode(globalIDs(n))
}

// globalIDs draws ids directly and from routers that welcome sessions.
func globalIDs(n int) []uint64 {
	var out []uint64
	for i := 0; i < n; i++ {
		if i%4 == 3 {
			if id, ok := welcomedID(i); ok {
				out = append(out, id)
			}
			continue
		}
		out = append(out, wampproto.GenerateID())
	}
	return out
}

func welcomedID(i int) (uint64, bool) {
	acc := wampproto.NewAcceptor(serializerOf(i%3), freshDB{})
	reply, err := acc.ReceiveMessage(messages.NewHello("realm1", "alice", nil, nil, []string{"anonymous"}))
	if err != nil {
		return 0, false
	}
	w, ok := reply.(*messages.Welcome)
	if !ok {
		return 0, false
	}
	return w.SessionID(), true
}

func runGlobalIDs(p *Plan, trace bool) *Result {
	c := newCtx(p.Prop, trace)
	rt.SingleTask(true)
	defer func() { rt.Extremes = false; rt.Entropy = nil; rt.SingleTask(false) }()
	seen := map[uint64]string{}
	judge := func(ids []uint64, what string, fresh bool) {
		for _, id := range ids {
			c.check(p.Prop)
			if id < 1 || id > idLimit {
				c.violate(p.Prop, "out-of-range", "%s: id %d is outside 1..2^53", what, id)
			}
			if !fresh {
				continue
			}
			if w, dup := seen[id]; dup {
				c.violate(p.Prop, "id-repeated", "id %d came twice: %s, and %s", id, w, what)
			}
			seen[id] = what
		}
		c.event(fmt.Sprintf("%s: %v", what, ids))
	}
	boot := 0
	for _, s := range p.Steps {
		if c.failed() {
			break
		}
		clock := int64(1_700_000_000_000_000_000)
		if s.D == 1 {
			clock += int64(s.I) * 1_000_000_000
		}
		var ids []uint64
		switch s.Op {
		case "draw":
			rt.SetClock(clock, nil)
			rt.SeedRand(rt.Mix(p.Seed, uint64(s.I)))
			rt.SeedEntropy(rt.Mix(p.Seed, uint64(s.I)+1000))
			crash := protect(func() { ids = globalIDs(s.A) })
			if crash != "" {
				c.violate(p.Prop, "crash", "drawing an id: %s", crash)
			}
			judge(ids, fmt.Sprintf("source %d", s.I), true)
			c.res.Stats["sources"]++
			if s.A >= 64 {
				c.check(p.Prop)
				bad := spread(ids)
				if bad != "" {
					c.violate(p.Prop, "not-spread", "%d random ids: %s", len(ids), bad)
				}
			}
		case "extreme":
			rt.SetClock(clock, nil)
			rt.SeedRand(rt.Mix(p.Seed, uint64(s.I)))
			rt.SeedEntropy(rt.Mix(p.Seed, uint64(s.I)+1000))
			rt.Extremes = true
			crash := protect(func() { ids = globalIDs(s.A) })
			rt.Extremes = false
			if crash != "" {
				c.violate(p.Prop, "crash", "drawing an id: %s", crash)
			}
			c.count("fault:extreme-draws")
			judge(ids, fmt.Sprintf("source %d at its extremes", s.I), false)
		case "boot":
			// a process of its own, started at the same instant with its own entropy
			boot++
			cmd := exec.Command(os.Args[0], "ids", fmt.Sprint(s.A))
			cmd.Env = append(os.Environ(), fmt.Sprintf("ZZSIM_BOOT_SEED=%d", rt.Mix(p.Seed, uint64(s.I)+7)), fmt.Sprintf("ZZSIM_BOOT_CLOCK=%d", clock))
			out, err := cmd.Output()
			if err != nil || json.Unmarshal(out, &ids) != nil {
				c.violate(p.Prop, "crash", "a process that draws ids dies: %v", err)
				break
			}
			c.count("fault:process-restart")
			judge(ids, fmt.Sprintf("process %d", boot), true)
		}
	}
	return c.done()
}

// spread tells whether random ids use the whole range: every bit takes both
// values, and no quarter of the range is empty or holds nearly everything.
func spread(ids []uint64) string {
	var or, and uint64
	and = ^uint64(0)
	quarter := make([]int, 4)
	for _, id := range ids {
		or |= id
		and &= id
		q := id >> 51
		if q > 3 {
			q = 3
		}
		quarter[q]++
	}
	for b := 0; b < 53; b++ {
		if or>>b&1 == 0 {
			return fmt.Sprintf("bit %d is never set", b)
		}
		if and>>b&1 == 1 {
			return fmt.Sprintf("bit %d is always set", b)
		}
	}
	if len(ids) >= 256 {
		for q, n := range quarter {
			if n == 0 {
				return fmt.Sprintf("none lies in quarter %d of the range", q)
			}
		}
	}
	return ""
}

func genGlobalIDs(prop string, seed uint64, tier string) *Plan {
	r := rt.NewPRNG(rt.Mix(seed, 0x61d))
	p := &Plan{Prop: prop, Engine: "globalids", Seed: seed, Cfg: map[string]int{}}
	add := func(s Step) {
		s.I = len(p.Steps)
		p.Steps = append(p.Steps, s)
	}
	for k := 1 + r.N(4); k > 0; k-- {
		add(Step{Op: "draw", A: []int{1, 8, 128, 320}[r.N(4)], D: r.N(2)})
	}
	add(Step{Op: "extreme", A: 1 + r.N(40)})
	if r.N(60) == 0 {
		for k := 2 + r.N(2); k > 0; k-- {
			add(Step{Op: "boot", A: 4 + r.N(12)})
		}
	}
	return p
}

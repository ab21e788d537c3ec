package main

import (
	"fmt"
	"os"
	"time"
)

// minimiseMain FILE OUT
func minimiseMain(args []string) int {
	rf, err := readReplay(args[0])
	if err != nil {
		return 2
	}
	if rf.Fatal {
		return 3 // a run that kills its process is kept as it is
	}
	deadline := time.Now().Add(40 * time.Second)
	class := rf.Violation.Class
	var last *Result
	fails := func(p *Plan) bool {
		r := runPlan(p, false)
		if r.V != nil && r.V.Class == class {
			last = r
			return true
		}
		return false
	}
	best := rf.Plan.clone()
	if !fails(best) {
		return 3
	}
	// the tail after the violation is of no use.
	shrink := func(n int, without func(p *Plan, from, to int) *Plan) {
		size := n
		for chunk := (size + 1) / 2; chunk >= 1; {
			changed := false
			for from := 0; from < size && time.Now().Before(deadline); {
				to := from + chunk
				if to > size {
					to = size
				}
				q := without(best, from, to)
				if fails(q) {
					best = q
					size -= to - from
					changed = true
				} else {
					from = to
				}
			}
			if chunk == 1 && !changed {
				break
			}
			if chunk > 1 {
				chunk /= 2
			} else if !changed {
				break
			}
			if time.Now().After(deadline) {
				break
			}
		}
	}
	steps := func(p *Plan, from, to int) *Plan {
		q := p.clone()
		q.Steps = append(q.Steps[:from:from], q.Steps[to:]...)
		return q
	}
	shrink(len(best.Steps), steps)
	if len(best.Sched) > 0 {
		shrink(len(best.Sched), func(p *Plan, from, to int) *Plan {
			q := p.clone()
			q.Sched = append(q.Sched[:from:from], q.Sched[to:]...)
			return q
		})
		shrink(len(best.Steps), steps)
	}
	try := func(f func(p *Plan)) {
		q := best.clone()
		f(q)
		if time.Now().Before(deadline) && fails(q) {
			best = q
		}
	}
	for _, k := range []string{"lat", "seg", "wire"} {
		k := k
		if best.Cfg[k] != 0 {
			try(func(p *Plan) { p.Cfg[k] = 0 })
		}
	}
	for i := range best.Steps {
		i := i
		for _, f := range []func(s *Step){
			func(s *Step) { s.A = 0 }, func(s *Step) { s.B = 0 }, func(s *Step) { s.D = 0 }, func(s *Step) { s.F = 0 },
		} {
			before := best.Steps[i]
			after := before
			f(&after)
			if after != before {
				try(func(p *Plan) { p.Steps[i] = after })
			}
		}
	}
	shrink(len(best.Steps), steps)
	if !fails(best) {
		return 3
	}
	r := runPlan(best, true)
	if r.V == nil || r.V.Class != class {
		return 3
	}
	rf.Plan = best
	rf.Violation = r.V
	rf.Trace = r.Log
	if err := writeReplay(args[1], rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	_ = last
	return 0
}

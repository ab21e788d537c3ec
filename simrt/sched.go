package zzsimrt

import (
	"fmt"
	"sync"
)

// The task scheduler. Tasks are real goroutines, but only the one that holds
// the token runs; the token moves at the yield points that the instrumenter
// put before every statement and inside every lock operation, and where it
// moves to is decided by the run's PRNG or by a recorded list of decisions.
//
// Everything here is norace and the token travels with race synchronisation
// disabled, so that under -race the only happens-before edges are those the
// code under test makes itself.

const (
	MaxTasks     = 8
	maxDecisions = 4096
	// what the code under test starts with go statements is numbered from here.
	firstSpawned = 100
)

// Decision says: when task Task, in its operation Op, reaches its Y-th yield
// point, the token goes to task To.
type Decision struct {
	Task, Op, Y, To int
	Forced          bool // the task could not continue (blocked or finished)
}

const (
	tsReady = iota
	tsBlocked
	tsDone
)

type task struct {
	id      int
	wake    chan struct{}
	state   int
	op      int
	y       int
	spawned bool  // by a go statement of the code under test
	failed  error // what it has to panic with when it goes on
}

// lockState is the simulated part of a lock, or of whatever tasks wait for.
type lockState struct {
	held    bool // write-held
	readers int
	writers int // waiting writers
	waiters []*task
}

// Outcome of a scheduled run.
const (
	RunOK = iota
	RunDeadlock
	RunLivelock
	RunPanic
)

type sched struct {
	on      bool
	cur     *task
	n       int
	bodies  []*task
	tasks   []*task // the bodies, and what was spawned and is not blocked
	spawned int
	rnd     PRNG
	quantum int
	mean    int
	steps   int
	limit   int
	clock   int // event stamps

	replay  bool
	plan    []Decision
	used    []bool
	rec     [maxDecisions]Decision
	nrec    int
	dropped int

	outcome int
	detail  string
	done    chan struct{}
	dead    bool
}

// mainTask is whoever runs while no scheduled run is on.
var mainTask = &task{id: -1, wake: make(chan struct{}, 1)}

var sc = sched{cur: mainTask, mean: 5, quantum: 5}

// singleMode makes a lock that is taken while held panic instead of hanging:
// in a single-task simulation nobody else could ever release it.
var singleMode bool

const singleLimit = 300_000_000

var singleSteps int

// LivelockError is the panic value of an operation that does not come to an end.
type LivelockError struct{}

func (LivelockError) Error() string { return "livelock: an operation does not come to an end" }

// NewOp restarts the step count of single-task runs.
//
//go:norace
func NewOp() { singleSteps = 0 }

// SingleTask switches the detection of self-deadlock in single-task runs.
func SingleTask(on bool) { singleMode = on }

// DeadlockError is the panic value for a lock nobody can release any more.
type DeadlockError struct{ What string }

func (d DeadlockError) Error() string { return "deadlock: " + d.What }

// Abandoned is the panic value that unwinds tasks of a run that is over.
type Abandoned struct{}

// SchedConfig configures one scheduled run.
type SchedConfig struct {
	Seed  uint64
	Mean  int // mean number of yield points between preemptions
	Limit int // yield points before the run counts as livelocked
	// Replay, when set, replaces the PRNG's decisions.
	Replay bool
	Plan   []Decision
}

// SchedResult reports one scheduled run.
type SchedResult struct {
	Outcome   int
	Detail    string
	Steps     int
	Decisions []Decision
}

// Stamp returns the next event number of the run.
//
//go:norace
func Stamp() int { sc.clock++; return sc.clock }

// BeginOp tells the scheduler that the running task starts its operation op.
//
//go:norace
func BeginOp(op int) {
	if sc.on {
		sc.cur.op = op
		sc.cur.y = 0
	}
}

// BeginRun separates one simulated run from those before it: what they left
// running comes to an end, what they left waiting stays where it is.
//
//go:norace
func BeginRun(seed uint64) {
	settle()
	sc.tasks = nil
	mainTask.failed, mainTask.state = nil, tsReady
	sc.spawned = 0
	sc.rnd = PRNG{s: seed}
	sc.mean, sc.replay = 5, false
	pickCase = PRNG{s: seed ^ 0x5e1ec7}
	sc.steps = 0
}

//go:norace
func settle() {
	defer func() { _ = recover() }()
	for i := 0; i < 1000000 && len(sc.tasks) > 0; i++ {
		Y()
	}
}

// pickCase decides which ready case a select statement takes.
var pickCase PRNG

// RunTasks runs the bodies as tasks under the scheduler until all are done.
//
//go:norace
func RunTasks(cfg SchedConfig, bodies []func()) SchedResult {
	if len(bodies) > MaxTasks {
		panic("too many tasks")
	}
	sc.n = len(bodies)
	sc.rnd = PRNG{s: cfg.Seed}
	sc.mean, sc.limit = cfg.Mean, cfg.Limit
	sc.steps, sc.nrec, sc.dropped, sc.clock = 0, 0, 0, 0
	sc.replay, sc.plan = cfg.Replay, cfg.Plan
	sc.used = make([]bool, len(cfg.Plan))
	sc.outcome, sc.detail, sc.dead = RunOK, "", false
	sc.done = make(chan struct{}, 1)
	sc.newQuantum()
	var wg sync.WaitGroup
	sc.bodies = nil
	for i := range bodies {
		sc.bodies = append(sc.bodies, &task{id: i, wake: make(chan struct{}, 1), state: tsReady})
	}
	left := sc.tasks
	sc.tasks = nil
	for _, t := range sc.bodies {
		sc.tasks = append(sc.tasks, t)
	}
	for _, t := range left {
		sc.tasks = append(sc.tasks, t)
	}
	for i := range bodies {
		wg.Add(1)
		go taskMain(sc.bodies[i], bodies[i], wg.Done)
	}
	sc.on = true
	first := sc.pickReady(nil)
	sc.cur = first
	raceDisable()
	first.wake <- struct{}{}
	<-sc.done
	raceEnable()
	sc.on = false
	sc.cur = mainTask
	if sc.outcome == RunOK {
		wg.Wait()
		var rest []*task
		for _, t := range sc.tasks {
			if t.spawned {
				rest = append(rest, t)
			}
		}
		sc.tasks = rest
	} else {
		// unwind whoever is parked; they run one after another and touch nothing.
		sc.dead = true
		sc.tasks = nil
		for _, t := range sc.bodies {
			if t.state != tsDone {
				raceDisable()
				select {
				case t.wake <- struct{}{}:
				default:
				}
				raceEnable()
			}
		}
		wg.Wait()
		sc.dead = false
	}
	sc.replay, sc.mean = false, 5
	out := SchedResult{Outcome: sc.outcome, Detail: sc.detail, Steps: sc.steps}
	for i := 0; i < sc.nrec; i++ {
		out.Decisions = append(out.Decisions, sc.rec[i])
	}
	return out
}

// Go stands for the go statement: the function becomes a task of its own.
//
//go:norace
func Go(f func()) {
	if sc.dead {
		panic(Abandoned{})
	}
	sc.spawned++
	t := &task{id: firstSpawned + sc.spawned, wake: make(chan struct{}, 1), state: tsReady, spawned: true}
	sc.tasks = append(sc.tasks, t)
	go taskMain(t, f, func() {})
	Y()
}

//go:norace
func taskMain(t *task, body func(), done func()) {
	defer done()
	defer taskEnd(t)
	park(t)
	if sc.dead {
		return
	}
	body()
}

//go:norace
func taskEnd(t *task) {
	r := recover()
	if _, ok := r.(Abandoned); ok {
		return
	}
	if r != nil && !sc.on { // it crashes the process: whoever waits is told
		t.state = tsDone
		sc.drop(t)
		mainTask.failed = fmt.Errorf("a goroutine panicked: %v", r)
		mainTask.state = tsReady
		handOver(mainTask)
		return
	}
	if r != nil {
		if sc.outcome == RunOK {
			sc.outcome = RunPanic
			sc.detail = fmt.Sprintf("task %d op %d panicked: %v", t.id, t.op, r)
		}
		t.state = tsDone
		finish()
		return
	}
	if sc.dead {
		return
	}
	t.state = tsDone
	if t.spawned {
		sc.drop(t)
	}
	sc.goOn(t)
}

// goOn lets somebody else run when t cannot. It tells whether there was anybody.
//
//go:norace
func (s *sched) goOn(t *task) bool {
	if s.on {
		over := true
		for _, b := range s.bodies {
			over = over && b.state == tsDone
		}
		if over {
			finish()
			return true
		}
	}
	if next := s.pickReady(t); next != nil {
		handOver(next)
		return true
	}
	if s.on {
		s.outcome = RunDeadlock
		s.detail = s.describeBlocked()
		finish()
		return false
	}
	if t == mainTask {
		return false
	}
	mainTask.failed = DeadlockError{"nobody can go on"}
	mainTask.state = tsReady
	handOver(mainTask)
	return true
}

//go:norace
func (s *sched) drop(t *task) {
	for i := range s.tasks {
		if s.tasks[i] == t {
			// by hand: copy() would tell the race detector.
			for k := i; k+1 < len(s.tasks); k++ {
				s.tasks[k] = s.tasks[k+1]
			}
			s.tasks = s.tasks[:len(s.tasks)-1]
			return
		}
	}
}

//go:norace
func (s *sched) describeBlocked() string {
	out := "no task can run:"
	for _, t := range s.bodies {
		if t.state == tsBlocked {
			out += fmt.Sprintf(" task %d waits in its operation %d;", t.id, t.op)
		}
	}
	return out
}

//go:norace
func finish() {
	raceDisable()
	select {
	case sc.done <- struct{}{}:
	default:
	}
	raceEnable()
}

//go:norace
func park(t *task) {
	raceDisable()
	<-t.wake
	raceEnable()
}

//go:norace
func handOver(next *task) {
	sc.cur = next
	raceDisable()
	next.wake <- struct{}{}
	raceEnable()
}

//go:norace
func (s *sched) newQuantum() {
	if s.mean <= 1 {
		s.quantum = 1
		return
	}
	s.quantum = 1 + s.rnd.N(2*s.mean)
}

// others lists the ready tasks other than t.
//
//go:norace
func (s *sched) others(t *task, ready []*task) []*task {
	for _, o := range s.tasks {
		if o != t && o.state == tsReady {
			ready = append(ready, o)
		}
	}
	if !s.on && t != mainTask && mainTask.state == tsReady {
		ready = append(ready, mainTask)
	}
	return ready
}

// pickReady chooses a ready task other than t, which cannot go on; nil if there is none.
//
//go:norace
func (s *sched) pickReady(t *task) *task {
	var room [MaxTasks]*task
	ready := s.others(t, room[:0])
	if len(ready) == 0 {
		return nil
	}
	from, op, y := -1, 0, 0
	if t != nil {
		from, op, y = t.id, t.op, t.y
	}
	to := ready[0]
	if s.replay {
		for i := range s.plan {
			d := &s.plan[i]
			if !s.used[i] && d.Forced && d.Task == from && d.Op == op && d.Y == y {
				s.used[i] = true
				for _, o := range ready {
					if o.id == d.To {
						to = o
					}
				}
				break
			}
		}
	} else {
		to = ready[s.rnd.N(len(ready))]
	}
	if s.on {
		s.record(Decision{Task: from, Op: op, Y: y, To: to.id, Forced: true})
	}
	return to
}

//go:norace
func (s *sched) record(d Decision) {
	if s.nrec < maxDecisions {
		s.rec[s.nrec] = d
		s.nrec++
	} else {
		s.dropped++
	}
}

// Y is a yield point.
//
//go:norace
func Y() {
	if !sc.on {
		if sc.dead {
			panic(Abandoned{})
		}
		if singleMode {
			singleSteps++
			if singleSteps > singleLimit {
				singleSteps = 0
				panic(LivelockError{})
			}
		}
		if len(sc.tasks) == 0 {
			return
		}
	}
	t := sc.cur
	t.y++
	sc.steps++
	if sc.on && sc.limit > 0 && sc.steps > sc.limit {
		sc.outcome = RunLivelock
		sc.detail = fmt.Sprintf("task %d still in operation %d after %d steps", t.id, t.op, sc.steps)
		finish()
		park(t)
		panic(Abandoned{})
	}
	if sc.on && sc.replay {
		for i := range sc.plan {
			d := &sc.plan[i]
			if !sc.used[i] && !d.Forced && d.Task == t.id && d.Op == t.op && d.Y == t.y {
				sc.used[i] = true
				for _, o := range sc.tasks {
					if o != t && o.id == d.To && o.state == tsReady {
						sc.record(*d)
						switchTo(t, o)
						break
					}
				}
				return
			}
		}
		return
	}
	sc.quantum--
	if sc.quantum > 0 {
		return
	}
	sc.newQuantum()
	var room [MaxTasks]*task
	ready := sc.others(t, room[:0])
	if n := len(ready); n > 0 {
		to := ready[sc.rnd.N(n)]
		if sc.on {
			sc.record(Decision{Task: t.id, Op: t.op, Y: t.y, To: to.id})
		}
		switchTo(t, to)
	}
}

// After is a yield point behind the evaluation of v.
//
//go:norace
func After[T any](v T) T {
	Y()
	return v
}

//go:norace
func switchTo(t, to *task) {
	handOver(to)
	resume(t)
}

// resume parks t until it has the token again.
//
//go:norace
func resume(t *task) {
	park(t)
	if sc.dead {
		panic(Abandoned{})
	}
	if err := t.failed; err != nil {
		t.failed = nil
		panic(err)
	}
}

// block parks the running task until what it waits for changes.
//
//go:norace
func block(on ...*lockState) {
	if sc.dead {
		panic(Abandoned{})
	}
	t := sc.cur
	t.state = tsBlocked
	for _, l := range on {
		l.waiters = append(l.waiters, t)
	}
	if t.spawned {
		sc.drop(t)
	}
	if !sc.goOn(t) && !sc.on {
		t.state = tsReady
		panic(DeadlockError{"nobody can go on"})
	}
	resume(t)
}

//go:norace
func wakeAll(l *lockState) {
	for len(l.waiters) > 0 {
		wakeOne(l)
	}
}

//go:norace
func wakeOne(l *lockState) {
	t := l.waiters[0]
	l.waiters = l.waiters[1:]
	if t.state == tsBlocked {
		t.state = tsReady
		if t.spawned {
			sc.tasks = append(sc.tasks, t)
		}
	}
}

// Active tells whether the scheduler is running tasks.
//
//go:norace
func Active() bool { return sc.on }

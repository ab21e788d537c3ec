package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	rt "github.com/xconnio/wampproto-go/zzsimrt"
)

// instrumentLevel is set by the build.
var instrumentLevel string

const maxWorkers = 8

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "worker":
		worker(os.Args[2:])
	case "minimise":
		os.Exit(minimiseMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "one":
		os.Exit(oneMain(os.Args[2:]))
	case "selftest":
		os.Exit(selftest(os.Args[2:]))
	default:
		if f := extraModes[os.Args[1]]; f != nil {
			f(os.Args[2:])
			return
		}
		usage()
	}
}

// extraModes are child processes that engines start.
var extraModes = map[string]func(args []string){}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: sim check PROP quick|thorough | replay FILE | one PROP INDEX | selftest PROP N")
	os.Exit(2)
}

func verifDir() string {
	if d := os.Getenv("ZZSIM_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func baseSeed() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func runSeed(base uint64, prop string, i int) uint64 {
	return rt.Mix(rt.Mix(base, hashString(prop)), uint64(i))
}

func makePlan(prop, tier string, base uint64, i int) *Plan {
	return engines[props[prop].engine].gen(prop, runSeed(base, prop, i), tier)
}

func runPlan(p *Plan, trace bool) *Result {
	rt.BeginRun(rt.Mix(p.Seed, 0x60))
	return engines[p.Engine].run(p, trace)
}

// ---------------------------------------------------------------- worker

type workerReport struct {
	Runs       int
	Checks     int64
	NonTriv    int
	SimTime    int64
	Stats      map[string]int64
	Known      map[string]int
	KnownAt    map[string]int // a run that showed it
	Sample     []string
	Plan       *Plan // set with V
	V          *Violation
	Index      int
	TimedOut   bool
	Slowest    float64 // seconds
	SlowestRun int
}

// worker PROP TIER BASE FROM STEP COUNT DIR DEADLINE
func worker(args []string) {
	prop, tier := args[0], args[1]
	base, _ := strconv.ParseUint(args[2], 10, 64)
	from, _ := strconv.Atoi(args[3])
	step, _ := strconv.Atoi(args[4])
	count, _ := strconv.Atoi(args[5])
	dir := args[6]
	deadline, _ := strconv.ParseInt(args[7], 10, 64)
	name := filepath.Join(dir, fmt.Sprintf("w%d", from))
	progress, err := os.Create(name + ".progress")
	if err != nil {
		panic(err)
	}
	hashes, err := os.Create(name + ".hashes")
	if err != nil {
		panic(err)
	}
	hw := bufio.NewWriter(hashes)
	rep := workerReport{Stats: map[string]int64{}, Known: map[string]int{}, KnownAt: map[string]int{}}
	var buf [8]byte
	seen := map[uint64]struct{}{}
	for i := from; i < count; i += step {
		if time.Now().Unix() > deadline {
			rep.TimedOut = true
			break
		}
		binary.LittleEndian.PutUint64(buf[:], uint64(i)+1)
		progress.WriteAt(buf[:], 0)
		p := makePlan(prop, tier, base, i)
		began := time.Now()
		res := runPlan(p, false)
		if d := time.Since(began).Seconds(); d > rep.Slowest {
			rep.Slowest, rep.SlowestRun = d, i
		}
		rep.Runs++
		rep.Checks += int64(res.Checks)
		rep.SimTime += res.SimTime
		for k, v := range res.Stats {
			rep.Stats[k] += v
		}
		for k, v := range res.Known {
			rep.Known[k] += v
			if _, ok := rep.KnownAt[k]; !ok {
				rep.KnownAt[k] = i
			}
		}
		if res.Checks > 0 {
			rep.NonTriv++
			if _, dup := seen[res.Hash]; !dup && len(seen) < 4_000_000 {
				seen[res.Hash] = struct{}{}
				binary.LittleEndian.PutUint64(buf[:], res.Hash)
				hw.Write(buf[:])
			}
		}
		if res.V != nil {
			p.Sched, p.FreeSched = res.Decided, false
			if len(res.Decided) == 0 {
				p.FreeSched = true
			}
			rep.V, rep.Plan, rep.Index = res.V, p, i
			break
		}
		if i == from && from < 2 {
			rep.Sample = sampleOf(p)
		}
	}
	hw.Flush()
	hashes.Close()
	out, err := os.Create(name + ".report")
	if err != nil {
		panic(err)
	}
	json.NewEncoder(out).Encode(&rep)
	out.Close()
}

func sampleOf(p *Plan) []string {
	res := runPlan(p, true)
	out := []string{fmt.Sprintf("plan: %s", mustJSON(p))}
	log := res.Log
	if len(log) > 40 {
		log = append(log[:40:40], fmt.Sprintf("... %d more events", len(res.Log)-40))
	}
	for _, l := range log {
		if len(l) > 300 {
			l = l[:300] + "..."
		}
		out = append(out, l)
	}
	if len(out[0]) > 6000 {
		out[0] = out[0][:6000] + "..."
	}
	return out
}

// ---------------------------------------------------------------- check

type failure struct {
	plan  *Plan
	v     *Violation
	index int
	fatal bool
}

func check(args []string) int {
	if len(args) < 2 {
		usage()
	}
	prop, tier := args[0], args[1]
	def, ok := props[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	start := time.Now()
	count := def.quick
	limit := 150 * time.Second
	if tier == "thorough" {
		count = def.thorough
		limit = 3 * time.Hour
	}
	if v := os.Getenv("ZZSIM_RUNS"); v != "" {
		count, _ = strconv.Atoi(v)
	}
	if v := os.Getenv("ZZSIM_LIMIT"); v != "" {
		s, _ := strconv.Atoi(v)
		limit = time.Duration(s) * time.Second
	}
	base := baseSeed()
	dir, err := os.MkdirTemp("", "zzsim-run.")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	workers := runtime.NumCPU()
	if workers > maxWorkers {
		workers = maxWorkers
	}
	deadline := start.Add(limit).Unix()

	type done struct {
		w    int
		rep  *workerReport
		fail *failure
		err  error
	}
	ch := make(chan done, workers)
	var procs []*os.Process
	var mu sync.Mutex
	for w := 0; w < workers; w++ {
		cmd := exec.Command(os.Args[0], "worker", prop, tier, fmt.Sprint(base), fmt.Sprint(w), fmt.Sprint(workers), fmt.Sprint(count), dir, fmt.Sprint(deadline))
		cmd.Env = workerEnv(dir, w)
		var tail tailBuffer
		cmd.Stderr = &tail
		cmd.Stdout = &discard{}
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		mu.Lock()
		procs = append(procs, cmd.Process)
		mu.Unlock()
		name := filepath.Join(dir, fmt.Sprintf("w%d", w))
		w := w
		go func() {
			stop := make(chan struct{})
			hung := false
			go func() {
				last, since := uint64(0), time.Now()
				for {
					select {
					case <-stop:
						return
					case <-time.After(time.Second):
					}
					n := readProgress(name)
					if n != last {
						last, since = n, time.Now()
					} else if time.Since(since) > hangLimit {
						hung = true
						cmd.Process.Kill()
						return
					}
				}
			}()
			err := cmd.Wait()
			close(stop)
			if data, e := os.ReadFile(name + ".report"); e == nil && err == nil {
				var rep workerReport
				if e := json.Unmarshal(data, &rep); e == nil {
					d := done{w: w, rep: &rep}
					if rep.V != nil {
						d.fail = &failure{plan: rep.Plan, v: rep.V, index: rep.Index}
					}
					ch <- d
					return
				}
			}
			// the process died, or hung: the run it was in is the suspect.
			i := int(readProgress(name)) - 1
			if i < 0 {
				ch <- done{w: w, err: fmt.Errorf("worker %d died before its first run: %v\n%s", w, err, tail.String())}
				return
			}
			p := makePlan(prop, tier, base, i)
			p.FreeSched = true
			what := firstFatalLine(tail.String())
			if hung {
				what = "the run does not come to an end"
			}
			ch <- done{w: w, fail: &failure{plan: p, index: i, fatal: true,
				v: &Violation{Prop: prop, Class: "fatal", Detail: what}}, err: fmt.Errorf("worker %d died in run %d: %v\n%s", w, i, err, tail.String())}
		}()
	}
	total := workerReport{Stats: map[string]int64{}, Known: map[string]int{}, KnownAt: map[string]int{}}
	var fail *failure
	var failErr error
	for n := 0; n < workers; n++ {
		d := <-ch
		if d.rep != nil {
			merge(&total, d.rep)
		}
		if fail == nil && d.fail != nil {
			fail, failErr = d.fail, d.err
			mu.Lock()
			for _, p := range procs {
				p.Kill()
			}
			mu.Unlock()
		} else if d.fail == nil && d.err != nil && fail == nil {
			fmt.Fprintln(os.Stderr, d.err)
			return 2
		}
	}
	distinct := countHashes(dir, workers)
	violations := 0
	code := 0
	if fail != nil {
		path, ok := settle(fail, tier, workers)
		if !ok {
			fmt.Fprintf(os.Stderr, "run %d of %s failed (%s: %s) and did not fail again when it was replayed\n%v\n", fail.index, prop, fail.v.Class, fail.v.Detail, failErr)
			return 2
		}
		violations = 1
		code = 1
		fmt.Printf("%s: %s\n", fail.v.Class, fail.v.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	} else {
		code = reportKnown(prop, &total)
		if code != 0 {
			violations = 1
		}
	}
	wall := time.Since(start).Seconds()
	if err := writeEvidence(prop, tier, base, def, &total, distinct, wall, violations, workers); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if code == 0 {
		fmt.Printf("%s held: %d runs, %d distinct non-trivial, %d oracle checks, %.1f s\n", prop, total.Runs, distinct, total.Checks, wall)
		if total.Runs == 0 || total.Checks == 0 {
			fmt.Fprintln(os.Stderr, "nothing was checked")
			return 2
		}
	}
	return code
}

const hangLimit = 60 * time.Second

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }

// tailBuffer keeps the beginning of what a process wrote.
type tailBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuffer) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 16<<10 {
		t.b = append(t.b, b...)
	}
	return len(b), nil
}

func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func firstFatalLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return "the process dies: " + strings.TrimSpace(l)
		}
	}
	return "the process dies"
}

func workerEnv(dir string, w int) []string {
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "GOMAXPROCS=") && !strings.HasPrefix(e, "GOMEMLIMIT=") && !strings.HasPrefix(e, "ZZSIM_BOOT") {
			env = append(env, e)
		}
	}
	env = append(env, "GOMAXPROCS=2", fmt.Sprintf("GORACE=halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0 exitcode=0 log_path=%s/race%d", dir, w))
	return env
}

func readProgress(name string) uint64 {
	b, err := os.ReadFile(name + ".progress")
	if err != nil || len(b) < 8 {
		return 0
	}
	return binary.LittleEndian.Uint64(b)
}

func merge(t, r *workerReport) {
	t.Runs += r.Runs
	t.Checks += r.Checks
	t.NonTriv += r.NonTriv
	t.SimTime += r.SimTime
	t.TimedOut = t.TimedOut || r.TimedOut
	if r.Slowest > t.Slowest {
		t.Slowest, t.SlowestRun = r.Slowest, r.SlowestRun
	}
	for k, v := range r.Stats {
		t.Stats[k] += v
	}
	for k, v := range r.Known {
		t.Known[k] += v
	}
	for k, v := range r.KnownAt {
		if old, ok := t.KnownAt[k]; !ok || v < old {
			t.KnownAt[k] = v
		}
	}
	if t.Sample == nil {
		t.Sample = r.Sample
	}
}

func countHashes(dir string, workers int) int {
	var all []uint64
	for w := 0; w < workers; w++ {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.hashes", w)))
		if err != nil {
			continue
		}
		for i := 0; i+8 <= len(b); i += 8 {
			all = append(all, binary.LittleEndian.Uint64(b[i:]))
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	n := 0
	for i := range all {
		if i == 0 || all[i] != all[i-1] {
			n++
		}
	}
	return n
}

// ---------------------------------------------------------------- replay files

type replayFile struct {
	Property  string     `json:"property"`
	Violation *Violation `json:"violation"`
	Fatal     bool       `json:"fatal,omitempty"`
	BaseSeed  uint64     `json:"base_seed"`
	Index     int        `json:"run_index"`
	Plan      *Plan      `json:"plan"`
	Prelude   *prelude   `json:"prelude,omitempty"`
	Original  int        `json:"steps_before_minimising"`
	Trace     []string   `json:"trace,omitempty"`
	How       string     `json:"how"`
}

// prelude names the runs that went before in the same process: what they left
// behind in the code under test is part of the schedule when the failing run
// alone does not fail.
type prelude struct {
	Tier  string `json:"tier"`
	First int    `json:"first_run"`
	Step  int    `json:"step"`
	Last  int    `json:"last_run"`
	Twice bool   `json:"first_run_twice,omitempty"`
}

func (r *replayFile) before() {
	if r.Prelude == nil {
		return
	}
	for i := r.Prelude.First; i <= r.Prelude.Last; i += r.Prelude.Step {
		runPlan(makePlan(r.Property, r.Prelude.Tier, r.BaseSeed, i), false)
		if i == r.Prelude.First && r.Prelude.Twice {
			runPlan(makePlan(r.Property, r.Prelude.Tier, r.BaseSeed, i), true)
		}
	}
}

// withPrelude looks for the shortest history of the process after which the run fails again.
func withPrelude(path string, rf *replayFile, tier string, workers int) bool {
	from := rf.Index % workers
	n := rf.Index / workers // runs before it in its process
	for k := 1; n > 0; k *= 4 {
		if k > n {
			k = n
		}
		rf.Prelude = &prelude{Tier: tier, First: rf.Index - k*workers, Step: workers, Last: rf.Index - workers}
		rf.Prelude.Twice = rf.Prelude.First == from && from < 2
		if writeReplay(path, rf) == nil && replayOK(path) {
			return true
		}
		if k == n {
			break
		}
	}
	rf.Prelude = nil
	return false
}

// settle minimises a failing plan, writes its replay file and replays it in a fresh process.
func settle(f *failure, tier string, workers int) (string, bool) {
	dir := filepath.Join(verifDir(), "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		dir = os.TempDir()
	}
	rf := &replayFile{Property: f.plan.Prop, Violation: f.v, Fatal: f.fatal, BaseSeed: baseSeed(), Index: f.index,
		Plan: f.plan, Original: len(f.plan.Steps), How: "/verif/check.sh replay FILE"}
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", f.plan.Prop, f.plan.Seed))
	if err := writeReplay(path, rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return "", false
	}
	if !replayOK(path) {
		return path, withPrelude(path, rf, tier, workers)
	}
	// minimise in a process of its own, and keep the result only if it fails again.
	small := path + ".min"
	cmd := exec.Command(os.Args[0], "minimise", path, small)
	cmd.Env = workerEnv(os.TempDir(), 99)
	done := make(chan error, 1)
	if err := cmd.Start(); err == nil {
		go func() { done <- cmd.Wait() }()
		select {
		case err = <-done:
		case <-time.After(150 * time.Second):
			cmd.Process.Kill()
			<-done
			err = fmt.Errorf("timeout")
		}
		if err == nil && replayOK(small) {
			os.Rename(small, path)
		}
	}
	os.Remove(small)
	if b, err := os.ReadFile(path); err == nil {
		var r replayFile
		if json.Unmarshal(b, &r) == nil && r.Violation != nil {
			f.v = r.Violation
		}
	}
	return path, true
}

func writeReplay(path string, rf *replayFile) error {
	b, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

func readReplay(path string) (*replayFile, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		return nil, err
	}
	return &rf, nil
}

// replayOK replays a file in a fresh process and tells whether it fails in the recorded way.
func replayOK(path string) bool {
	cmd := exec.Command(os.Args[0], "replay", path)
	cmd.Env = workerEnv(os.TempDir(), 98)
	if err := cmd.Start(); err != nil {
		return false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	rf, err := readReplay(path)
	if err != nil {
		return false
	}
	select {
	case <-done:
	case <-time.After(hangLimit):
		cmd.Process.Kill()
		<-done
		return rf.Fatal
	}
	code := cmd.ProcessState.ExitCode()
	if rf.Fatal {
		return code != 0 && code != 3
	}
	return code == 1
}

// replayMain: exit 1 when the recorded violation shows again, 3 when it does not.
func replayMain(args []string) int {
	if len(args) < 1 {
		usage()
	}
	rf, err := readReplay(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rf.before()
	res := runPlan(rf.Plan, true)
	for _, l := range res.Log {
		fmt.Println(l)
	}
	if res.V != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n%s: %s\n", res.V.Prop, args[0], res.V.Class, res.V.Detail)
		if rf.Violation != nil && !rf.Fatal && res.V.Class != rf.Violation.Class {
			fmt.Printf("(recorded: %s)\n", rf.Violation.Class)
			return 3
		}
		return 1
	}
	fmt.Println("the run holds")
	return 3
}

func oneMain(args []string) int {
	i, _ := strconv.Atoi(args[1])
	p := makePlan(args[0], "quick", baseSeed(), i)
	p.FreeSched = true
	fmt.Println(mustJSON(p))
	res := runPlan(p, true)
	for _, l := range res.Log {
		fmt.Println(l)
	}
	fmt.Printf("checks %d, hash %016x, stats %s, known %v\n", res.Checks, res.Hash, mustJSON(res.Stats), res.Known)
	if res.V != nil {
		fmt.Printf("%s %s: %s\n", res.V.Prop, res.V.Class, res.V.Detail)
		return 1
	}
	return 0
}

// selftest runs plans twice and compares the histories.
func selftest(args []string) int {
	n, _ := strconv.Atoi(args[1])
	for i := 0; i < n; i++ {
		p := makePlan(args[0], "quick", baseSeed(), i)
		p.FreeSched = true
		a := runPlan(p, false)
		b := runPlan(p.clone(), true)
		if a.Hash != b.Hash || a.Checks != b.Checks || a.SimTime != b.SimTime {
			fmt.Printf("run %d of %s is not repeatable: %016x %016x\n", i, args[0], a.Hash, b.Hash)
			return 1
		}
	}
	fmt.Printf("%d runs of %s repeated exactly\n", n, args[0])
	return 0
}

package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	rt "github.com/xconnio/wampproto-go/zzsimrt"
)

// Step is one scheduled action of a plan. Its fields are symbolic: references
// are resolved when it runs, so that a plan stays meaningful with steps removed.
type Step struct {
	I  int    `json:"i"`  // identity of the step, kept when others are removed
	At int64  `json:"at"` // simulated microseconds
	C  int    `json:"c"`  // acting client, connection or task
	Op string `json:"op"`
	U  string `json:"u,omitempty"`
	S  string `json:"s,omitempty"`
	A  int    `json:"a,omitempty"`
	B  int    `json:"b,omitempty"`
	D  int    `json:"d,omitempty"`
	F  int    `json:"f,omitempty"`
	H  int    `json:"h,omitempty"`
}

// Plan is one complete simulated execution: a run is a pure function of it and the code.
type Plan struct {
	Prop   string         `json:"property"`
	Engine string         `json:"engine"`
	Seed   uint64         `json:"seed"`
	Cfg    map[string]int `json:"cfg"`
	Steps  []Step         `json:"steps"`
	Sched  []rt.Decision  `json:"sched,omitempty"`
	// FreeSched: the scheduler draws from the seed instead of following Sched.
	FreeSched bool `json:"free_sched,omitempty"`
}

func (p *Plan) cfg(k string) int { return p.Cfg[k] }

func (p *Plan) clone() *Plan {
	q := *p
	q.Cfg = map[string]int{}
	for k, v := range p.Cfg {
		q.Cfg[k] = v
	}
	q.Steps = append([]Step(nil), p.Steps...)
	q.Sched = append([]rt.Decision(nil), p.Sched...)
	return &q
}

// Violation says that a run broke a property.
type Violation struct {
	Prop   string `json:"property"`
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Result is what one run did.
type Result struct {
	V       *Violation
	Known   map[string]int // known findings that the run showed
	Hash    uint64         // hash of the history
	Checks  int            // oracle evaluations that were not vacuous
	SimTime int64          // microseconds of simulated time
	Stats   map[string]int64
	Log     []string
	Decided []rt.Decision
}

// run context shared by the engines
type ctx struct {
	res   Result
	prop  string // the property this run decides
	h     uint64
	trace bool
	now   int64
}

func newCtx(prop string, trace bool) *ctx {
	return &ctx{prop: prop, res: Result{Stats: map[string]int64{}, Known: map[string]int{}}, h: 14695981039346656037, trace: trace}
}

// check counts one oracle evaluation of a property.
func (c *ctx) check(prop string) {
	if prop == c.prop {
		c.res.Checks++
	}
}

func (c *ctx) count(name string) { c.res.Stats[name]++ }

func (c *ctx) log(format string, args ...any) {
	if c.trace {
		c.res.Log = append(c.res.Log, fmt.Sprintf("t=%dus ", c.now)+fmt.Sprintf(format, args...))
	}
}

// event mixes one event of the history into the run's hash, and into its log.
func (c *ctx) event(s string) {
	for i := 0; i < len(s); i++ {
		c.h = (c.h ^ uint64(s[i])) * 1099511628211
	}
	c.h = (c.h ^ '\n') * 1099511628211
	if c.trace {
		c.res.Log = append(c.res.Log, fmt.Sprintf("t=%dus %s", c.now, s))
	}
}

// violate records that the run broke a property; only the property that the
// run decides is reported, the others have checks of their own.
func (c *ctx) violate(prop, class, format string, args ...any) {
	if prop != c.prop {
		c.res.Stats["other:"+prop]++
		c.log("(not decided here) %s %s: %s", prop, class, fmt.Sprintf(format, args...))
		return
	}
	if c.res.V == nil {
		c.res.V = &Violation{Prop: prop, Class: class, Detail: fmt.Sprintf(format, args...)}
		c.log("VIOLATION %s %s: %s", prop, class, c.res.V.Detail)
	}
}

func (c *ctx) known(id string) { c.res.Known[id]++ }

func (c *ctx) failed() bool { return c.res.V != nil }

func (c *ctx) done() *Result {
	c.res.Hash = c.h
	c.res.SimTime = c.now
	return &c.res
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// norm writes a value in a form in which two values that mean the same to a
// WAMP peer are the same string: numbers lose their width, nil containers are empty.
func norm(v any) string {
	var b strings.Builder
	normTo(&b, v)
	return b.String()
}

func normTo(b *strings.Builder, v any) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
		return
	case string:
		b.WriteString(strconv.Quote(x))
		return
	case bool:
		b.WriteString(strconv.FormatBool(x))
		return
	case []byte:
		fmt.Fprintf(b, "bytes(%x)", x)
		return
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(rv.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.WriteString(strconv.FormatUint(rv.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		f := rv.Float()
		if f == math.Trunc(f) && math.Abs(f) < 1<<62 {
			b.WriteString(strconv.FormatInt(int64(f), 10))
		} else {
			b.WriteString(strconv.FormatFloat(f, 'g', -1, 64))
		}
	case reflect.String:
		b.WriteString(strconv.Quote(rv.String()))
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < rv.Len(); i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			normTo(b, rv.Index(i).Interface())
		}
		b.WriteByte(']')
	case reflect.Map:
		keys := rv.MapKeys()
		names := make([]string, len(keys))
		byName := map[string]reflect.Value{}
		for i, k := range keys {
			names[i] = fmt.Sprint(k.Interface())
			byName[names[i]] = k
		}
		sort.Strings(names)
		b.WriteByte('{')
		for i, n := range names {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(n))
			b.WriteByte(':')
			normTo(b, rv.MapIndex(byName[n]).Interface())
		}
		b.WriteByte('}')
	default:
		fmt.Fprintf(b, "%T(%v)", v, v)
	}
}

// normPayload treats absent and empty containers alike.
func normPayload(args []any, kwargs map[string]any) string {
	if args == nil {
		args = []any{}
	}
	if kwargs == nil {
		kwargs = map[string]any{}
	}
	return norm(args) + norm(kwargs)
}

func mustJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func sortedIDs[V any](m map[uint64]V) []uint64 {
	keys := make([]uint64, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	return keys
}

// protect runs f and turns a panic of the code under test into a description.
func protect(f func()) (crash string) {
	defer func() {
		if r := recover(); r != nil {
			crash = fmt.Sprintf("%v", r)
			if strings.TrimSpace(crash) == "" {
				crash = "panic"
			}
			crash += " at " + panicSite()
		}
	}()
	rt.NewOp()
	f()
	return ""
}

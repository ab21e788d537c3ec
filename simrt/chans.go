package zzsimrt

import (
	"iter"
	"reflect"
	"sync"
	"time"
	"unsafe"
	"weak"
)

// Channels, wait groups and conditions of the code under test. The channels
// stay what they are, so that the race detector sees the ordering they give;
// only waiting happens in the scheduler instead of the kernel. A channel
// without a buffer is made with room for one and hands over by rendezvous.

// rendezvous is the state of a channel made without a buffer.
type rendezvous struct {
	at       uintptr
	st       lockState
	made     weak.Pointer[byte] // the channel, which may be gone and its address used again
	gone     bool
	sending  bool
	receiver int           // waiting receivers
	ack      chan struct{} // the receiver's half of the hand-over
	promised bool          // the sender relied on a waiting receiver
}

// unbuffered is a hash table of its own: the run time's maps tell the race
// detector about every access, and the simulator's are not its business.
var unbuffered struct {
	slots []*rendezvous
	n     int
}
var waiting []waitingOn
var capAsked int

type waitingOn struct {
	at uintptr
	st *lockState
}

//go:norace
func meeting(at uintptr) *rendezvous {
	u := slotOf(at)
	if u == nil || u.gone || u.made.Value() == nil {
		return nil
	}
	return u
}

// Purge forgets channels that nobody can reach any more.
//
//go:norace
func Purge() {
	old := unbuffered.slots
	unbuffered.slots, unbuffered.n = nil, 0
	for _, u := range old {
		if u != nil && !u.gone && u.made.Value() != nil {
			register(u)
		}
	}
}

//go:norace
func slotOf(at uintptr) *rendezvous {
	n := uintptr(len(unbuffered.slots))
	if n == 0 {
		return nil
	}
	for i := (at >> 4) % n; ; i = (i + 1) % n {
		if u := unbuffered.slots[i]; u == nil || u.at == at {
			return u
		}
	}
}

//go:norace
func register(u *rendezvous) {
	if 2*unbuffered.n >= len(unbuffered.slots) {
		old := unbuffered.slots
		unbuffered.slots, unbuffered.n = make([]*rendezvous, 2*len(old)+67), 0
		for _, o := range old {
			if o != nil {
				register(o)
			}
		}
	}
	n := uintptr(len(unbuffered.slots))
	i := (u.at >> 4) % n
	for unbuffered.slots[i] != nil {
		if unbuffered.slots[i].at == u.at {
			unbuffered.slots[i] = u
			return
		}
		i = (i + 1) % n
	}
	unbuffered.slots[i] = u
	unbuffered.n++
}

// Cap notes the capacity that a channel is about to be made with.
//
//go:norace
func Cap[N ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n N) int {
	capAsked = int(n)
	if capAsked == 0 {
		return 1
	}
	return capAsked
}

// Made registers a channel made by make(chan T, Cap(n)).
//
//go:norace
func Made[C ~chan T, T any](ch C) C {
	if capAsked == 0 {
		at := addr(ch)
		p := *(**byte)(unsafe.Pointer(&ch))
		register(&rendezvous{at: at, made: weak.Make(p), ack: make(chan struct{}, 1)})
	} else if u := slotOf(addr(ch)); u != nil {
		u.gone = true
	}
	return ch
}

//go:norace
func addr(ch any) uintptr { return reflect.ValueOf(ch).Pointer() }

// stateOf returns where the tasks that wait for the channel are listed.
//
//go:norace
func stateOf(at uintptr) *lockState {
	if u := meeting(at); u != nil {
		return &u.st
	}
	for i := range waiting {
		if waiting[i].at == at {
			return waiting[i].st
		}
	}
	w := &lockState{}
	waiting = append(waiting, waitingOn{at, w})
	return w
}

//go:norace
func moved(at uintptr) {
	if u := meeting(at); u != nil {
		wakeAll(&u.st)
		return
	}
	for i := range waiting {
		if w := waiting[i]; w.at == at {
			for k := i; k+1 < len(waiting); k++ {
				waiting[k] = waiting[k+1]
			}
			waiting = waiting[:len(waiting)-1]
			wakeAll(w.st)
			return
		}
	}
}

//go:norace
func enterChan() {
	if !sc.on && sc.dead {
		panic(Abandoned{})
	}
	Y()
}

// SendTo stands for ch <- v.
func SendTo[T any](ch chan<- T) func(v T) {
	return func(v T) { sendOn(ch, v) }
}

//go:norace
func sendOn[T any](ch chan<- T, v T) {
	enterChan()
	if ch == nil {
		forever()
	}
	at := addr(ch)
	u := meeting(at)
	if u == nil {
		for !trySend(ch, v) {
			block(stateOf(at))
		}
		moved(at)
		Y()
		return
	}
	for u.sending {
		block(&u.st)
	}
	u.sending = true
	ch <- v
	wakeAll(&u.st)
	handedOver(u)
	Y()
}

//go:norace
func handedOver(u *rendezvous) {
	for {
		select {
		case <-u.ack:
			u.sending, u.promised = false, false
			wakeAll(&u.st)
			return
		default:
		}
		block(&u.st)
	}
}

func trySend[T any](ch chan<- T, v T) bool {
	select {
	case ch <- v:
		return true
	default:
		return false
	}
}

// tryRecv receives what is there; done also when the channel is closed.
func tryRecv[T any](ch <-chan T) (v T, ok, done bool) {
	select {
	case v, ok = <-ch:
		return v, ok, true
	default:
		return v, false, false
	}
}

// Recv stands for <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 stands for <-ch with two results.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	enterChan()
	if ch == nil {
		forever()
	}
	at := addr(ch)
	for {
		if v, ok, done := tryRecv(ch); done {
			received(at, ok)
			Y()
			return v, ok
		}
		if u := meeting(at); u != nil {
			u.receiver++
			wakeAll(&u.st)
			block(&u.st)
			u.receiver--
			continue
		}
		block(stateOf(at))
	}
}

//go:norace
func received(at uintptr, ok bool) {
	if u := meeting(at); u != nil && ok {
		u.ack <- struct{}{}
	}
	moved(at)
}

//go:norace
func forever() {
	var never lockState
	for {
		block(&never)
	}
}

// Close stands for close(ch).
//
//go:norace
func Close[T any](ch chan<- T) {
	enterChan()
	close(ch)
	moved(addr(ch))
	Y()
}

// ChanLen stands for len(ch).
//
//go:norace
func ChanLen(ch any) int {
	if meeting(addr(ch)) != nil {
		return 0
	}
	return reflect.ValueOf(ch).Len()
}

// ChanCap stands for cap(ch).
//
//go:norace
func ChanCap(ch any) int {
	if meeting(addr(ch)) != nil {
		return 0
	}
	return reflect.ValueOf(ch).Cap()
}

// Range stands for the range over a channel.
func Range[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Case is one case of a select statement.
type Case interface {
	try() bool
	at() uintptr
	promised() bool
	waits(on int)
}

// Receiving is the case v, ok := <-ch.
type Receiving[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func RecvCase[T any](ch <-chan T) *Receiving[T] { return &Receiving[T]{ch: ch} }

//go:norace
func (r *Receiving[T]) at() uintptr {
	if r.ch == nil {
		return 0
	}
	return addr(r.ch)
}

//go:norace
func (r *Receiving[T]) try() bool {
	v, ok, done := tryRecv(r.ch)
	if done {
		r.V, r.OK = v, ok
		received(r.at(), ok)
	}
	return done
}

//go:norace
func (r *Receiving[T]) promised() bool {
	u := meeting(r.at())
	return u != nil && u.promised
}

//go:norace
func (r *Receiving[T]) waits(n int) {
	if u := meeting(r.at()); u != nil {
		u.receiver += n
		if n > 0 {
			wakeAll(&u.st)
		}
	}
}

// Sending is the case ch <- v.
type Sending[T any] struct {
	ch chan<- T
	v  T
}

func SendCase[T any](ch chan<- T) func(v T) *Sending[T] {
	return func(v T) *Sending[T] { return &Sending[T]{ch, v} }
}

//go:norace
func (s *Sending[T]) at() uintptr {
	if s.ch == nil {
		return 0
	}
	return addr(s.ch)
}

//go:norace
func (s *Sending[T]) try() bool {
	u := meeting(s.at())
	if u == nil {
		if !trySend(s.ch, s.v) {
			return false
		}
		moved(s.at())
		return true
	}
	if u.sending || u.receiver == 0 {
		return false
	}
	u.sending, u.promised = true, true
	s.ch <- s.v
	wakeAll(&u.st)
	handedOver(u)
	return true
}

//go:norace
func (s *Sending[T]) promised() bool { return false }

//go:norace
func (s *Sending[T]) waits(int) {}

// Select stands for a select statement: it returns the number of the case
// that was taken, or -1 for the default.
//
//go:norace
func Select(hasDefault bool, cases ...Case) int {
	enterChan()
	for {
		first := pickCase.N(len(cases))
		for i, c := range cases {
			if c.at() != 0 && c.promised() && c.try() {
				Y()
				return i
			}
		}
		for k := range cases {
			i := (first + k) % len(cases)
			if cases[i].at() != 0 && cases[i].try() {
				Y()
				return i
			}
		}
		if hasDefault {
			return -1
		}
		var on []*lockState
		for _, c := range cases {
			if c.at() != 0 {
				c.waits(1)
				on = append(on, stateOf(c.at()))
			}
		}
		if len(on) == 0 {
			forever()
		}
		block(on...)
		for _, c := range cases {
			if c.at() != 0 {
				c.waits(-1)
			}
		}
	}
}

// WaitGroup stands for sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int
	st lockState
}

//go:norace
func (w *WaitGroup) Add(n int) {
	enterChan()
	w.wg.Add(n)
	w.n += n
	if w.n == 0 {
		wakeAll(&w.st)
	}
}

//go:norace
func (w *WaitGroup) Done() {
	if sc.dead {
		return
	}
	w.Add(-1)
}

//go:norace
func (w *WaitGroup) Wait() {
	enterChan()
	for w.n > 0 {
		block(&w.st)
	}
	w.wg.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Cond stands for sync.Cond.
type Cond struct {
	L       sync.Locker
	waiting []*notice
}

type notice struct {
	given bool
	st    lockState
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	enterChan()
	n := &notice{}
	c.waiting = append(c.waiting, n)
	c.L.Unlock()
	for !n.given {
		block(&n.st)
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	enterChan()
	if len(c.waiting) > 0 {
		n := c.waiting[0]
		c.waiting = c.waiting[1:]
		n.given = true
		wakeAll(&n.st)
	}
}

//go:norace
func (c *Cond) Broadcast() {
	enterChan()
	for len(c.waiting) > 0 {
		n := c.waiting[0]
		c.waiting = c.waiting[1:]
		n.given = true
		wakeAll(&n.st)
	}
}

// TimeAfter stands for time.After: simulated time passes when others have run.
func TimeAfter(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	Go(func() {
		for i := 0; i < 50; i++ {
			Y()
		}
		Sleep(d)
		sendOn(ch, Now())
	})
	return ch
}

package zzsimrt

import "sync"

// Mutex stands for sync.Mutex. It wraps a real one, so that the race detector
// sees the ordering it gives, and blocks in the scheduler instead of the kernel.
type Mutex struct {
	mu sync.Mutex
	st lockState
}

//go:norace
func (m *Mutex) Lock() {
	if !sc.on {
		if sc.dead {
			panic(Abandoned{})
		}
		if len(sc.tasks) == 0 && sc.cur == mainTask {
			if singleMode && m.st.held {
				panic(DeadlockError{"lock taken while it is held"})
			}
			m.mu.Lock()
			m.st.held = true
			return
		}
	}
	Y()
	for !m.mu.TryLock() {
		block(&m.st)
	}
	m.st.held = true
}

//go:norace
func (m *Mutex) TryLock() bool {
	Y()
	ok := m.mu.TryLock()
	if ok {
		m.st.held = true
	}
	return ok
}

//go:norace
func (m *Mutex) Unlock() {
	if sc.dead {
		return
	}
	if (sc.on || singleMode) && !m.st.held {
		panic("unlock of unlocked mutex")
	}
	m.st.held = false
	m.mu.Unlock()
	wakeAll(&m.st)
	Y()
}

// RWMutex stands for sync.RWMutex.
type RWMutex struct {
	mu sync.RWMutex
	st lockState
}

//go:norace
func (m *RWMutex) Lock() {
	if !sc.on {
		if sc.dead {
			panic(Abandoned{})
		}
		if len(sc.tasks) == 0 && sc.cur == mainTask {
			if singleMode && (m.st.held || m.st.readers > 0) {
				panic(DeadlockError{"lock taken while it is held"})
			}
			m.mu.Lock()
			m.st.held = true
			return
		}
	}
	Y()
	m.st.writers++
	for !m.mu.TryLock() {
		block(&m.st)
	}
	m.st.writers--
	m.st.held = true
}

//go:norace
func (m *RWMutex) TryLock() bool {
	Y()
	ok := m.mu.TryLock()
	if ok {
		m.st.held = true
	}
	return ok
}

//go:norace
func (m *RWMutex) Unlock() {
	if sc.dead {
		return
	}
	if (sc.on || singleMode) && !m.st.held {
		panic("unlock of unlocked mutex")
	}
	m.st.held = false
	m.mu.Unlock()
	wakeAll(&m.st)
	Y()
}

//go:norace
func (m *RWMutex) RLock() {
	if !sc.on {
		if sc.dead {
			panic(Abandoned{})
		}
		if len(sc.tasks) == 0 && sc.cur == mainTask {
			if singleMode && m.st.held {
				panic(DeadlockError{"read lock taken while the lock is held"})
			}
			m.mu.RLock()
			m.st.readers++
			return
		}
	}
	Y()
	// a waiting writer keeps new readers out, as in sync.RWMutex.
	for m.st.writers > 0 || !m.mu.TryRLock() {
		block(&m.st)
	}
	m.st.readers++
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	Y()
	if m.st.writers > 0 || !m.mu.TryRLock() {
		return false
	}
	m.st.readers++
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if sc.dead {
		return
	}
	if (sc.on || singleMode) && m.st.readers == 0 {
		panic("read-unlock of unlocked mutex")
	}
	m.st.readers--
	m.mu.RUnlock()
	wakeAll(&m.st)
	Y()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// Once stands for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Map stands for sync.Map: the real one, with a yield point before each step.
type Map struct{ m sync.Map }

func (m *Map) Load(key any) (any, bool)               { Y(); return m.m.Load(key) }
func (m *Map) Store(key, value any)                   { Y(); m.m.Store(key, value) }
func (m *Map) Delete(key any)                         { Y(); m.m.Delete(key) }
func (m *Map) LoadAndDelete(key any) (any, bool)      { Y(); return m.m.LoadAndDelete(key) }
func (m *Map) LoadOrStore(key, value any) (any, bool) { Y(); return m.m.LoadOrStore(key, value) }
func (m *Map) Swap(key, value any) (any, bool)        { Y(); return m.m.Swap(key, value) }
func (m *Map) CompareAndSwap(key, o, n any) bool      { Y(); return m.m.CompareAndSwap(key, o, n) }
func (m *Map) CompareAndDelete(key, o any) bool       { Y(); return m.m.CompareAndDelete(key, o) }
func (m *Map) Clear()                                 { Y(); m.m.Clear() }

func (m *Map) Range(f func(key, value any) bool) {
	Y()
	if !mapsActive() {
		m.m.Range(f)
		return
	}
	var keys []any
	m.m.Range(func(k, _ any) bool { keys = append(keys, k); return true })
	orderKeys(keys)
	for _, k := range keys {
		v, ok := m.m.Load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
		Y()
	}
}

// Pool stands for sync.Pool: the last object put in is the first one out.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	Y()
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	Y()
	if x == nil {
		return
	}
	p.mu.Lock()
	if len(p.items) == 64 { // a pool need not keep what it is given
		p.items = append(p.items[:0], p.items[1:]...)
	}
	p.items = append(p.items, x)
	p.mu.Unlock()
}

// Package vsync replaces sync in instrumented copies.  Its primitives have the
// semantics of package sync but block on channels, so that a goroutine waiting
// for a lock is "durably blocked" for testing/synctest, and every operation is a
// scheduling point of vsched.
package vsync

import (
	"runtime"
	"sync"
	"verif/vsched"
)

type Locker = sync.Locker

func killed() bool { return vsched.Killed() }

func exitIfKilled() {
	if killed() {
		runtime.Goexit()
	}
}

func wake(ws *[]chan struct{}) {
	for _, w := range *ws {
		close(w)
	}
	*ws = nil
}

// Mutex

type Mutex struct {
	mu     sync.Mutex
	locked bool
	ws     []chan struct{}
}

func (m *Mutex) Lock() {
	vsched.Yield()
	for {
		m.mu.Lock()
		if !m.locked {
			m.locked = true
			m.mu.Unlock()
			return
		}
		ch := make(chan struct{})
		m.ws = append(m.ws, ch)
		m.mu.Unlock()
		exitIfKilled()
		<-ch
		vsched.Yield()
	}
}

func (m *Mutex) TryLock() bool {
	vsched.Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Lock()
	if !m.locked {
		m.mu.Unlock()
		if killed() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	wake(&m.ws)
	m.mu.Unlock()
	if !killed() {
		vsched.Yield()
	}
}

// RWMutex

type RWMutex struct {
	mu   sync.Mutex
	w    bool            // writer holds
	r    int             // readers holding
	pend int             // writers waiting
	rw   []chan struct{} // waiting readers
	ww   []chan struct{} // waiting writers
}

func (m *RWMutex) RLock() {
	vsched.Yield()
	m.mu.Lock()
	if !m.w && m.pend == 0 {
		m.r++
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.rw = append(m.rw, ch)
	m.mu.Unlock()
	exitIfKilled()
	<-ch // granted by Unlock
	vsched.Yield()
}

func (m *RWMutex) TryRLock() bool {
	vsched.Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.w || m.pend > 0 {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	if m.r <= 0 {
		m.mu.Unlock()
		if killed() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	if m.r == 0 {
		wake(&m.ww)
	}
	m.mu.Unlock()
	if !killed() {
		vsched.Yield()
	}
}

func (m *RWMutex) Lock() {
	vsched.Yield()
	m.mu.Lock()
	waited := false
	for m.w || m.r > 0 {
		if !waited {
			m.pend++
			waited = true
		}
		ch := make(chan struct{})
		m.ww = append(m.ww, ch)
		m.mu.Unlock()
		exitIfKilled()
		<-ch
		vsched.Yield()
		m.mu.Lock()
	}
	if waited {
		m.pend--
	}
	m.w = true
	m.mu.Unlock()
}

func (m *RWMutex) TryLock() bool {
	vsched.Yield()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.w || m.r > 0 || m.pend > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	if !m.w {
		m.mu.Unlock()
		if killed() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.r += len(m.rw) // readers that were waiting hold the lock now
	wake(&m.rw)
	wake(&m.ww)
	m.mu.Unlock()
	if !killed() {
		vsched.Yield()
	}
}

type rlocker RWMutex

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }

// Cond

type Cond struct {
	L  Locker
	mu sync.Mutex
	ws []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.mu.Lock()
	c.ws = append(c.ws, ch)
	c.mu.Unlock()
	c.L.Unlock()
	exitIfKilled()
	<-ch
	vsched.Yield()
	c.L.Lock()
}

func (c *Cond) Signal() {
	vsched.Yield()
	c.mu.Lock()
	if len(c.ws) > 0 {
		close(c.ws[0])
		c.ws = c.ws[1:]
	}
	c.mu.Unlock()
}

func (c *Cond) Broadcast() {
	vsched.Yield()
	c.mu.Lock()
	wake(&c.ws)
	c.mu.Unlock()
}

// WaitGroup

type WaitGroup struct {
	mu sync.Mutex
	n  int
	ws []chan struct{}
}

func (g *WaitGroup) Add(d int) {
	vsched.Yield()
	g.mu.Lock()
	defer g.mu.Unlock()
	g.n += d
	if g.n < 0 {
		if killed() {
			return
		}
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		wake(&g.ws)
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	vsched.Yield()
	g.mu.Lock()
	if g.n == 0 {
		g.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	g.ws = append(g.ws, ch)
	g.mu.Unlock()
	exitIfKilled()
	<-ch
	vsched.Yield()
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vsched.Go(func() {
		defer g.Done()
		f()
	})
}

// Once

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Map: atomic operations with scheduling points around them.

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { vsched.Yield(); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { vsched.Yield(); m.m.Store(k, v); vsched.Yield() }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vsched.Yield()
	defer vsched.Yield()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	vsched.Yield()
	defer vsched.Yield()
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k any) { vsched.Yield(); m.m.Delete(k); vsched.Yield() }
func (m *Map) Swap(k, v any) (any, bool) {
	vsched.Yield()
	defer vsched.Yield()
	return m.m.Swap(k, v)
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	vsched.Yield()
	defer vsched.Yield()
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	vsched.Yield()
	defer vsched.Yield()
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v any) bool) {
	type kv struct{ k, v any }
	var l []kv
	m.m.Range(func(k, v any) bool { l = append(l, kv{k, v}); return true })
	for _, e := range l {
		vsched.Yield()
		if !f(e.k, e.v) {
			return
		}
	}
}
func (m *Map) Clear() { vsched.Yield(); m.m.Clear() }

// Pool keeps at most one item.
type Pool struct {
	New func() any
	mu  sync.Mutex
	x   []any
}

func (p *Pool) Get() any {
	vsched.Yield()
	p.mu.Lock()
	if n := len(p.x); n > 0 {
		v := p.x[n-1]
		p.x = p.x[:n-1]
		p.mu.Unlock()
		return v
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	p.mu.Lock()
	p.x = append(p.x, v)
	p.mu.Unlock()
	vsched.Yield()
}

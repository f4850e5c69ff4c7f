// Package vsched is the controlled scheduler that instrumented copies of the
// library run under.  Outside a managed execution every hook is a no-op.
//
// Inside a testing/synctest bubble the root goroutine owns a *Sched.  Every
// goroutine of the bubble that reaches a Yield parks itself; the root releases
// exactly one parked goroutine at a time and waits (synctest.Wait) until it
// parks again, blocks in a channel/timer/lock, or ends.  A schedule is thus the
// sequence of choices made by the root.
package vsched

import (
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing/synctest"
)

type G struct {
	ID   int // logical id: client threads get the id given to Spawn, others >= 1000
	goid int64
	ch   chan struct{}
}

type Sched struct {
	mu      sync.Mutex
	managed bool
	killed  bool
	root    int64
	gs      map[int64]*G
	nextID  int
	parked  []*G
	last    *G
	Steps   int
	free    int64 // yields while unmanaged (live-lock guard)
	FreeMax int64
	Live    bool        // live-lock detected while unmanaged
	OnPanic func(r any) // told of a panic that ends a goroutine started by the code under test
	live    int         // goroutines started through Go/Spawn and not yet ended
}

var cur atomic.Pointer[Sched]

func goid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	var id int64
	for i := len("goroutine "); i < n; i++ {
		c := b[i]
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}

// New installs a fresh scheduler; must be called from the root goroutine of a bubble.
func New() *Sched {
	s := &Sched{root: goid(), gs: map[int64]*G{}, nextID: 1000, FreeMax: 400_000}
	cur.Store(s)
	return s
}

// Manage switches controlled scheduling on or off.
func (s *Sched) Manage(on bool) {
	s.mu.Lock()
	s.managed = on
	s.free = 0
	s.mu.Unlock()
}

// Yield is a scheduling point.
func Yield() {
	if s := cur.Load(); s != nil {
		s.yield()
	}
}

// Killed reports that the execution is being torn down.
func Killed() bool {
	s := cur.Load()
	return s != nil && s.killed
}

func (s *Sched) yield() {
	id := goid()
	if id == s.root {
		if !s.managed {
			s.mu.Lock()
			s.free++
			over := s.free > s.FreeMax
			s.mu.Unlock()
			if over {
				s.Live = true
				panic("vsched: livelock in root")
			}
		}
		return
	}
	s.mu.Lock()
	if s.killed {
		s.mu.Unlock()
		runtime.Goexit()
	}
	if !s.managed {
		s.free++
		if s.free > s.FreeMax {
			s.Live = true
			s.mu.Unlock()
			runtime.Goexit()
		}
		s.mu.Unlock()
		return
	}
	g := s.gs[id]
	if g == nil {
		g = &G{ID: s.nextID, goid: id}
		s.nextID++
		s.gs[id] = g
	}
	g.ch = make(chan struct{})
	s.parked = append(s.parked, g)
	ch := g.ch
	s.mu.Unlock()
	<-ch
	if s.killed {
		runtime.Goexit()
	}
}

// Go replaces a go statement.
func Go(f func()) {
	s := cur.Load()
	if s == nil {
		go f()
		return
	}
	s.mu.Lock()
	if s.killed {
		s.mu.Unlock()
		return
	}
	lid := s.nextID
	s.nextID++
	s.live++
	s.mu.Unlock()
	go s.body(lid, func() {
		defer func() {
			if s.OnPanic != nil {
				if r := recover(); r != nil {
					s.OnPanic(r)
				}
			}
		}()
		f()
	})
}

// Spawn starts a client thread with logical id lid; it parks before running f when managed.
func (s *Sched) Spawn(lid int, f func()) {
	s.mu.Lock()
	s.live++
	s.mu.Unlock()
	go s.body(lid, f)
}

func (s *Sched) body(lid int, f func()) {
	id := goid()
	s.mu.Lock()
	s.gs[id] = &G{ID: lid, goid: id}
	s.mu.Unlock()
	defer func() {
		s.mu.Lock()
		s.live--
		delete(s.gs, id)
		s.mu.Unlock()
	}()
	s.yield()
	f()
}

// Live goroutines started through Spawn or an instrumented go statement.
func (s *Sched) Running() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.live
}

// Enabled waits for quiescence and returns the parked goroutines in a canonical order.
func (s *Sched) Enabled() []*G {
	synctest.Wait()
	s.mu.Lock()
	defer s.mu.Unlock()
	sort.Slice(s.parked, func(i, j int) bool { return s.parked[i].ID < s.parked[j].ID })
	return s.parked
}

// Step releases the i-th parked goroutine.
func (s *Sched) Step(i int) {
	s.mu.Lock()
	g := s.parked[i]
	s.parked = append(s.parked[:i:i], s.parked[i+1:]...)
	s.last = g
	s.Steps++
	s.mu.Unlock()
	close(g.ch)
}

func (s *Sched) Last() *G { return s.last }

// Release turns management off and lets everything run freely.
func (s *Sched) Release() {
	s.Manage(false)
	for {
		synctest.Wait()
		s.mu.Lock()
		p := s.parked
		s.parked = nil
		s.mu.Unlock()
		if len(p) == 0 {
			return
		}
		for _, g := range p {
			close(g.ch)
		}
	}
}

// Kill ends every goroutine that reaches (or is parked at) a scheduling point.
func (s *Sched) Kill() {
	s.mu.Lock()
	s.killed = true
	s.managed = false
	p := s.parked
	s.parked = nil
	s.mu.Unlock()
	for _, g := range p {
		close(g.ch)
	}
	synctest.Wait()
}

// Done uninstalls the scheduler.
func (s *Sched) Done() { cur.CompareAndSwap(s, nil) }

package hx

import (
	"encoding/json"
	"fmt"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
	"verif/vsched"
)

// Generic harness for objects whose operations are calls with arguments and results.

type Op map[string]any

func (o Op) S(k string) string { s, _ := o[k].(string); return s }
func (o Op) I(k string) int {
	switch v := o[k].(type) {
	case float64:
		return int(v)
	case int:
		return v
	}
	return 0
}
func (o Op) B(k string) bool { b, _ := o[k].(bool); return b }

type OAct struct {
	K  string `json:"k"` // op, tick
	T  int    `json:"t"`
	Op Op     `json:"op"`
	D  int    `json:"d"`
}

type OScript struct {
	Par     map[string]any `json:"par"`
	Acts    []OAct         `json:"acts"`    // run one by one to quiescence
	Threads [][]Op         `json:"threads"` // then concurrently under the scheduler
	Ticks   []int          `json:"ticks"`   // clock steps interleaved with the concurrent phase
	Post    []OAct         `json:"post"`    // then one by one again
}

// Obj is one instance of the object under test.
type Obj interface {
	Do(op Op) any // executes op; result is logged
}

// Skipper tells which calls of a step-by-step phase a user must not make in the present state; they are left out.
type Skipper interface{ Skip(op Op) bool }

// Make builds the object for a script; it may log further events through x.
type Make func(x *X, par Op, clk *Clock) Obj

type objEx struct {
	x    *X
	o    Obj
	clk  *Clock
	busy map[int]bool
	pend int
}

func (e *objEx) do(t int, op Op) {
	e.x.LogF(func() Ev { return Ev{"e": "call", "t": t, "op": op} })
	e.x.Guard(func() {
		r := e.o.Do(op)
		if r == nil {
			r = 0
		}
		e.x.LogF(func() Ev { delete(e.busy, t); return Ev{"e": "ret", "t": t, "r": r} })
	}, func(p any) {
		e.x.LogF(func() Ev { delete(e.busy, t); return Ev{"e": "panic", "t": t, "m": fmt.Sprint(p)} })
	})
}

func (e *objEx) act(a OAct) {
	switch a.K {
	case "op":
		if s, ok := e.o.(Skipper); ok && s.Skip(a.Op) {
			return
		}
		e.x.mu.Lock()
		b := e.busy[a.T]
		e.busy[a.T] = true
		e.x.mu.Unlock()
		if b {
			return
		}
		e.x.S.Spawn(a.T, func() { e.do(a.T, a.Op) })
	case "tick":
		e.x.Log(Ev{"e": "tick", "d": a.D})
		e.clk.Advance(a.D)
	}
}

func (e *objEx) quiet() {
	synctest.Wait()
	e.x.mu.Lock()
	n := len(e.x.evs)
	if n == 0 || e.x.evs[n-1]["e"] != "quiet" {
		e.x.evs = append(e.x.evs, Ev{"e": "quiet"})
	}
	e.x.mu.Unlock()
}

func newEx(x *X, s OScript, unit time.Duration, mk Make) *objEx {
	e := &objEx{x: x, clk: NewClock(unit), busy: map[int]bool{}}
	e.o = mk(x, Op(s.Par), e.clk)
	return e
}

func objOut(ts *Traces, s OScript, x *X, evs []Ev) {
	if x.Fail != "" {
		evs = append(evs, Ev{"e": "fail", "m": x.Fail})
	}
	ts.Add(map[string]any{"par": s.Par, "ev": evs})
}

// ObjSteps runs scripts step by step, every step to quiescence.
func ObjSteps(t *testing.T, unit time.Duration, mk Make) {
	var in struct{ Scripts []OScript }
	In(t, &in)
	ts := &Traces{}
	for _, s := range in.Scripts {
		if Enough() {
			break
		}
		var evs []Ev
		x, _ := Run(t, func(x *X) {
			e := newEx(x, s, unit, mk)
			for _, a := range s.Acts {
				e.act(a)
				e.quiet()
			}
			evs = append([]Ev{}, x.Events()...)
		})
		objOut(ts, s, x, evs)
	}
	OutTraces(t, ts)
}

// ObjConc runs the concurrent phases of scripts under many schedules.
func ObjConc(t *testing.T, unit time.Duration, mk Make) {
	var in struct {
		Scripts          []OScript
		Bound, DFS, Rand int
	}
	In(t, &in)
	ts := &Traces{}
	for si, s := range in.Scripts {
		Schedules(Seed()*1000+int64(si), in.Bound, in.DFS, in.Rand, func(c vsched.Chooser) {
			if Enough() {
				return
			}
			var evs []Ev
			x, _ := Run(t, func(x *X) {
				e := newEx(x, s, unit, mk)
				for _, a := range s.Acts {
					e.act(a)
					e.quiet()
				}
				x.S.Manage(true)
				for i, ops := range s.Threads {
					id := i + 1
					e.busy[id] = true
					x.S.Spawn(id, func() {
						for _, op := range ops {
							e.do(id, op)
							e.x.mu.Lock()
							e.busy[id] = true
							e.x.mu.Unlock()
							vsched.Yield()
						}
						e.x.mu.Lock()
						delete(e.busy, id)
						e.x.mu.Unlock()
					})
				}
				if len(s.Ticks) > 0 {
					x.S.Spawn(90, func() {
						for _, d := range s.Ticks {
							e.pend = d
							vsched.Yield()
						}
					})
				}
				ok := x.Drive(c, func(int) {
					if d := e.pend; d > 0 {
						e.pend = 0
						x.Log(Ev{"e": "tick", "d": d})
						e.clk.Advance(d)
					}
				})
				x.S.Manage(false)
				if !ok {
					x.Log(Ev{"e": "livelock"})
				}
				e.quiet()
				for _, a := range s.Post {
					e.act(a)
					e.quiet()
				}
				evs = append([]Ev{}, x.Events()...)
			})
			objOut(ts, s, x, evs)
		})
	}
	OutTraces(t, ts)
}

// JSON round trip helper.
func ToOp(v any) Op {
	b, _ := json.Marshal(v)
	var o Op
	json.Unmarshal(b, &o)
	return o
}

// Silenter tells which operations are the environment's own and not logged as calls.
type Silenter interface{ Silent(op Op) bool }

// Round is a clock step followed by operations that start at that instant, one thread each, run to quiescence.
type Round struct {
	D  int  `json:"d"`
	Th []Op `json:"th"`
}

type RScript struct {
	Par    map[string]any `json:"par"`
	Rounds []Round        `json:"rounds"`
}

// ObjRounds runs scripts of rounds under many schedules. state, if not nil, adds to the quiet events.
func ObjRounds(t *testing.T, unit time.Duration, mk Make, state func(o Obj, others int) Ev) {
	var in struct {
		Scripts          []RScript
		Bound, DFS, Rand int
	}
	In(t, &in)
	ts := &Traces{}
	for si, s := range in.Scripts {
		Schedules(Seed()*1000+int64(si), in.Bound, in.DFS, in.Rand, func(c vsched.Chooser) {
			if Enough() {
				return
			}
			var evs []Ev
			var clients atomic.Int64
			x, leaked := Run(t, func(x *X) {
				e := newEx(x, OScript{Par: s.Par}, unit, mk)
				x.S.Manage(true)
				for _, r := range s.Rounds {
					if r.D > 0 {
						x.Log(Ev{"e": "tick", "d": r.D})
						e.clk.Advance(r.D)
					}
					for i, op := range r.Th {
						id := i + 1
						if q, ok := e.o.(Silenter); ok && q.Silent(op) {
							clients.Add(1)
							x.S.Spawn(100+i, func() {
								e.o.Do(op)
								clients.Add(-1)
							})
							continue
						}
						e.x.mu.Lock()
						b := e.busy[id]
						e.busy[id] = true
						e.x.mu.Unlock()
						if b {
							continue
						}
						clients.Add(1)
						x.S.Spawn(id, func() {
							e.do(id, op)
							clients.Add(-1)
						})
					}
					if !x.Drive(c, nil) {
						x.Log(Ev{"e": "livelock"})
						break
					}
					q := Ev{"e": "quiet"}
					if state != nil {
						n := x.S.Running()
						n -= int(clients.Load())
						q = state(e.o, n)
						q["e"] = "quiet"
					}
					x.Log(q)
				}
				x.S.Manage(false)
				evs = append([]Ev{}, x.Events()...)
			})
			_ = leaked
			objOut(ts, OScript{Par: s.Par}, x, evs)
		})
	}
	OutTraces(t, ts)
}

// LogF0 runs f atomically with the events.
func (x *X) LogF0(f func()) {
	x.mu.Lock()
	defer x.mu.Unlock()
	f()
}

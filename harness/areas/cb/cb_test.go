package cb

import (
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"github.com/chanjarster/gears/circuitbreaker"
	"verif/hx"
	"verif/vsched"
)

type Act struct {
	K string `json:"k"`
	T int    `json:"t"`
	R string `json:"r"`
	D int    `json:"d"`
}

type Par struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	Rt   int    `json:"rt"` // model ticks (2 per unit)
}

type Script struct {
	Par     Par        `json:"par"`
	Nest    bool       `json:"nest"`
	Acts    []Act      `json:"acts"`
	Threads [][]string `json:"threads"` // concurrent phase: outcomes of the calls of each thread
	Post    []Act      `json:"post"`
	Ticks   []int      `json:"ticks"` // clock steps interleaved with the concurrent phase
}

const unit = 7 * time.Millisecond

func mk(p Par) circuitbreaker.Interface {
	if p.Kind == "never" {
		return circuitbreaker.NeverOpen
	}
	return circuitbreaker.NewSyncCircuitBreaker(p.N, hx.TickDur(p.Rt, unit))
}

type cmd struct {
	r    string // result to finish with
	nest int    // thread id of a nested call to make first
}

type ex struct {
	x     *hx.X
	cb    circuitbreaker.Interface
	state map[int]string   // idle, intask, inerr, inopen (as seen by user code)
	cmds  map[int]chan cmd // commands to the callback of thread t
	child map[int]int      // parent -> nested thread still running
	clk   *hx.Clock
	pend  int
}

func (e *ex) set(t int, s string) { e.x.LogF(func() hx.Ev { e.state[t] = s; return nil }) }

func (e *ex) log(t int, s string, ev hx.Ev) {
	ev["t"] = t
	e.x.LogF(func() hx.Ev { e.state[t] = s; return ev })
}

// wait is the body of every callback: obey commands until told to finish.
func (e *ex) wait(t int) string {
	for c := range e.cmds[t] {
		if c.nest != 0 {
			e.do(c.nest)
			e.x.LogF(func() hx.Ev { delete(e.child, t); return nil })
			continue
		}
		return c.r
	}
	return "ok"
}

func (e *ex) do(t int) {
	e.log(t, "called", hx.Ev{"e": "call"})
	var mine error
	e.x.Guard(func() {
		e.cb.Do(func() error {
			e.log(t, "intask", hx.Ev{"e": "tstart"})
			r := e.wait(t)
			mine = nil
			if r == "err" {
				mine = fmt.Errorf("error of %d", t)
			}
			e.log(t, "busy", hx.Ev{"e": "tend", "r": r})
			return mine
		}, func(err error) {
			e.log(t, "inerr", hx.Ev{"e": "estart", "own": err == mine && err != nil})
			e.wait(t)
			e.log(t, "busy", hx.Ev{"e": "eend"})
		}, func() {
			e.log(t, "inopen", hx.Ev{"e": "ostart"})
			e.wait(t)
			e.log(t, "busy", hx.Ev{"e": "oend"})
		})
		e.log(t, "idle", hx.Ev{"e": "ret"})
	}, func(r any) {
		e.log(t, "idle", hx.Ev{"e": "panic", "m": fmt.Sprint(r)})
	})
}

func (e *ex) act(a Act, nest bool) {
	want := map[string]string{"tend": "intask", "eend": "inerr", "oend": "inopen"}[a.K]
	switch a.K {
	case "call":
		if s := e.state[a.T]; s != "" && s != "idle" {
			return
		}
		e.cmds[a.T] = make(chan cmd)
		if nest {
			for p := 1; p <= 8; p++ {
				s := e.state[p]
				if p != a.T && e.child[p] == 0 && (s == "intask" || s == "inerr" || s == "inopen") {
					e.child[p] = a.T
					e.cmds[p] <- cmd{nest: a.T}
					return
				}
			}
		}
		t := a.T
		e.x.S.Spawn(t, func() { e.do(t) })
	case "tend", "eend", "oend":
		if e.state[a.T] != want || e.child[a.T] != 0 {
			return
		}
		e.cmds[a.T] <- cmd{r: a.R}
	case "tick":
		e.x.Log(hx.Ev{"e": "tick", "d": a.D})
		e.clk.Advance(a.D)
	}
}

func (e *ex) quiet() {
	synctest.Wait()
	e.x.Log(hx.Ev{"e": "quiet"})
}

func clean(evs []hx.Ev) []hx.Ev {
	out := []hx.Ev{}
	for _, v := range evs {
		if v != nil {
			out = append(out, v)
		}
	}
	return out
}

func start(x *hx.X, s Script) *ex {
	e := &ex{x: x, state: map[int]string{}, cmds: map[int]chan cmd{}, child: map[int]int{}, clk: hx.NewClock(unit)}
	e.cb = mk(s.Par)
	return e
}

// finish every callback so that the bubble ends.
func (e *ex) drain() {
	for i := 0; i < 40; i++ {
		synctest.Wait()
		did := false
		for t := 1; t <= 8; t++ {
			s := e.state[t]
			if (s == "intask" || s == "inerr" || s == "inopen") && e.child[t] == 0 {
				e.cmds[t] <- cmd{r: "ok"}
				synctest.Wait()
				did = true
			}
		}
		if !did {
			return
		}
	}
}

func out(ts *hx.Traces, s Script, x *hx.X, evs []hx.Ev) {
	if x.Fail != "" {
		evs = append(evs, hx.Ev{"e": "fail", "m": x.Fail})
	}
	ts.Add(map[string]any{"par": s.Par, "ev": evs})
}

func TestSteps(t *testing.T) {
	var in struct{ Scripts []Script }
	hx.In(t, &in)
	ts := &hx.Traces{}
	for _, s := range in.Scripts {
		var evs []hx.Ev
		x, _ := hx.Run(t, func(x *hx.X) {
			e := start(x, s)
			for _, a := range s.Acts {
				e.act(a, s.Nest)
				e.quiet()
			}
			evs = clean(x.Events())
			e.drain()
		})
		out(ts, s, x, evs)
	}
	hx.OutTraces(t, ts)
}

func TestConc(t *testing.T) {
	var in struct {
		Scripts          []Script
		Bound, DFS, Rand int
	}
	hx.In(t, &in)
	ts := &hx.Traces{}
	for si, s := range in.Scripts {
		hx.Schedules(hx.Seed()*1000+int64(si), in.Bound, in.DFS, in.Rand, func(c vsched.Chooser) {
			var evs []hx.Ev
			x, _ := hx.Run(t, func(x *hx.X) {
				e := start(x, s)
				for _, a := range s.Acts {
					e.act(a, false)
					synctest.Wait()
				}
				x.S.Manage(true)
				for i, rs := range s.Threads {
					id := i + 1
					x.S.Spawn(id, func() {
						for _, r := range rs {
							e.autoDo(id, r)
						}
					})
				}
				if len(s.Ticks) > 0 {
					x.S.Spawn(90, func() {
						for _, d := range s.Ticks {
							e.pend = d
							vsched.Yield()
						}
					})
				}
				ok := x.Drive(c, func(int) {
					if d := e.pend; d > 0 {
						e.pend = 0
						e.act(Act{K: "tick", D: d}, false)
					}
				})
				x.S.Manage(false)
				if !ok {
					x.Log(hx.Ev{"e": "livelock"})
				}
				e.quiet()
				for _, a := range s.Post {
					e.act(a, false)
					e.quiet()
				}
				evs = clean(x.Events())
				e.drain()
			})
			out(ts, s, x, evs)
		})
	}
	hx.OutTraces(t, ts)
}

// autoDo: callbacks do not wait for commands, they only pass scheduling points.
func (e *ex) autoDo(t int, r string) {
	e.log(t, "called", hx.Ev{"e": "call"})
	var mine error
	if r == "err" {
		mine = fmt.Errorf("error of %d", t)
	}
	e.x.Guard(func() {
		e.cb.Do(func() error {
			e.log(t, "auto", hx.Ev{"e": "tstart"})
			vsched.Yield()
			e.log(t, "auto", hx.Ev{"e": "tend", "r": r})
			return mine
		}, func(err error) {
			e.log(t, "auto", hx.Ev{"e": "estart", "own": err == mine && err != nil})
			vsched.Yield()
			e.log(t, "auto", hx.Ev{"e": "eend"})
		}, func() {
			e.log(t, "auto", hx.Ev{"e": "ostart"})
			vsched.Yield()
			e.log(t, "auto", hx.Ev{"e": "oend"})
		})
		e.log(t, "idle", hx.Ev{"e": "ret"})
	}, func(p any) {
		e.log(t, "idle", hx.Ev{"e": "panic", "m": fmt.Sprint(p)})
	})
}

// Package hx is the common part of the conformance harnesses: it runs one
// execution of the real code in a synctest bubble (fake clock), under the
// controlled scheduler or freely, and records the observable events.
package hx

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"verif/vsched"
)

type Ev map[string]any

// X is one execution.
type X struct {
	S    *vsched.Sched
	mu   sync.Mutex
	evs  []Ev
	Fail string // harness-level anomaly: panic, livelock
	u    time.Duration
	T0   time.Time
}

func (x *X) Log(e Ev) {
	x.mu.Lock()
	x.evs = append(x.evs, e)
	x.mu.Unlock()
}

// LogF logs the event built by f atomically with other events.
func (x *X) LogF(f func() Ev) {
	x.mu.Lock()
	x.evs = append(x.evs, f())
	x.mu.Unlock()
}

func (x *X) Len() int { x.mu.Lock(); defer x.mu.Unlock(); return len(x.evs) }

func (x *X) Events() []Ev {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.evs == nil {
		return []Ev{}
	}
	return x.evs
}

var failed int

// Enough tells that so many executions went wrong that more are of no use.
func Enough() bool { return failed > 3 }

// Run executes f as the root of a fresh bubble. Goroutines left over are killed if they
// reach a scheduling point; a bubble left deadlocked is abandoned.
func Run(t *testing.T, f func(x *X)) (x *X, leaked bool) {
	x = &X{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				s := fmt.Sprint(r)
				if len(s) >= 8 && s[:8] == "deadlock" {
					leaked = true
					return
				}
				panic(r)
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			x.S = vsched.New()
			x.T0 = time.Now()
			// in a real process this ends the program
			x.S.OnPanic = func(r any) { x.Log(Ev{"e": "crash", "m": fmt.Sprint(r)}) }
			defer x.S.Done()
			func() {
				defer func() {
					if r := recover(); r != nil {
						if x.S.Live {
							x.Fail = "livelock"
							return
						}
						x.Fail = fmt.Sprint("panic in root: ", r, string(debug.Stack()))
					}
				}()
				f(x)
			}()
			if x.S.Live && x.Fail == "" {
				x.Fail = "livelock"
			}
			if x.Fail != "" {
				failed++
			}
			x.S.Kill()
		})
	}()
	return x, leaked
}

// Guard runs f on behalf of a client and reports a panic as an event.
func (x *X) Guard(f func(), onPanic func(r any)) {
	defer func() {
		if r := recover(); r != nil {
			onPanic(r)
		}
	}()
	f()
}

const MaxSteps = 20000

// Drive schedules until nothing is enabled; returns false on livelock.
// hook, if not nil, is called before every choice and may act as the environment.
func (x *X) Drive(c vsched.Chooser, hook func(step int)) bool {
	for i := 0; i < MaxSteps; i++ {
		en := x.S.Enabled()
		if hook != nil {
			hook(i)
		}
		if len(en) == 0 {
			return true
		}
		x.S.Step(c.Choose(en, x.S.Last()))
	}
	return false
}

// Traces is a de-duplicated collection of traces.
type Traces struct {
	seen  map[[32]byte]bool
	List  []map[string]any
	Execs int
}

func (ts *Traces) Add(tr map[string]any) {
	if ts.seen == nil {
		ts.seen = map[[32]byte]bool{}
	}
	ts.Execs++
	b, err := json.Marshal(tr)
	if err != nil {
		panic(err)
	}
	h := sha256.Sum256(b)
	if ts.seen[h] {
		return
	}
	ts.seen[h] = true
	ts.List = append(ts.List, tr)
}

// In decodes the input file of this run.
func In(t *testing.T, v any) {
	b, err := os.ReadFile(os.Getenv("VH_IN"))
	if err != nil {
		t.Skip("no input")
	}
	if err := json.Unmarshal(b, v); err != nil {
		t.Fatal(err)
	}
}

// Out writes the output file.
func Out(t *testing.T, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(os.Getenv("VH_OUT"), b, 0o644); err != nil {
		t.Fatal(err)
	}
}

func OutTraces(t *testing.T, ts *Traces) {
	if ts.List == nil {
		ts.List = []map[string]any{}
	}
	Out(t, map[string]any{"traces": ts.List, "execs": ts.Execs})
}

func Seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VH_SEED"), 10, 64)
	return n
}

func Thorough() bool { return os.Getenv("VH_TIER") == "thorough" }

// Schedules enumerates choosers: first all schedules with at most bound preemptions
// (up to maxDFS executions), then n random ones of several kinds.
func Schedules(seed int64, bound, maxDFS, n int, run func(c vsched.Chooser)) {
	if maxDFS > 0 {
		for b := 0; b <= bound; b++ {
			d := vsched.NewDFS(b)
			k := 0
			for d.Next() && k < maxDFS {
				run(d)
				k++
			}
		}
	}
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < n; i++ {
		switch i % 4 {
		case 0:
			run(vsched.Random{R: r})
		case 1:
			run(vsched.Sticky{R: r, P: 0.15})
		case 2:
			run(vsched.NewPCT(r, 2, 60))
		default:
			run(vsched.NewPCT(r, 4, 120))
		}
	}
}

// Tick maps model time (2*k + e) to real time: k units plus e nanoseconds.
func TickDur(ticks int, unit time.Duration) time.Duration {
	return time.Duration(ticks/2)*unit + time.Duration(ticks%2)
}

// Clock is the model clock of an execution.
type Clock struct {
	Now  int
	Unit time.Duration
	Lin  bool // a tick is one unit
	t0   time.Time
}

// At is the present model time of a Lin clock, -1 if it is not a whole number of units.
func (c *Clock) At() int {
	d := time.Since(c.t0)
	if d%c.Unit != 0 {
		return -1
	}
	return int(d / c.Unit)
}

func NewClock(unit time.Duration) *Clock { return &Clock{Unit: unit, t0: time.Now()} }

// Advance moves the fake clock by d model ticks.
func (c *Clock) Advance(d int) {
	c.Now += d
	at := TickDur(c.Now, c.Unit)
	if c.Lin {
		at = time.Duration(c.Now) * c.Unit
	}
	time.Sleep(time.Until(c.t0.Add(at)))
}

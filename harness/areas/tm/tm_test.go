package tm

import (
	"errors"
	"sync"
	"testing"
	"time"

	"github.com/chanjarster/gears/schedule"
	"verif/hx"
	"verif/vsched"
)

// task is a stand-in that records what the manager does to it
type task struct {
	x    *hx.X
	k    int
	name string
	mu   sync.Mutex
	st   int
}

func (t *task) Name() string { return t.name }
func (t *task) to(from int, ev string) error {
	vsched.Yield()
	t.mu.Lock()
	defer t.mu.Unlock()
	ok := t.st == from
	t.x.Log(hx.Ev{"e": ev, "k": t.k, "ok": ok})
	if !ok {
		return errors.New("wrong state")
	}
	t.st++
	return nil
}
func (t *task) Start() error { return t.to(0, "start") }
func (t *task) Stop() error  { return t.to(1, "stop") }
func (t *task) MustStart() {
	if err := t.Start(); err != nil {
		panic(err)
	}
}
func (t *task) MustStop() {
	if err := t.Stop(); err != nil {
		panic(err)
	}
}

type obj struct {
	m     schedule.TaskManager
	tasks []*task
	real  map[string]any
}

func (o *obj) out(name string) string {
	if r, ok := o.real[name]; ok {
		return r.(string)
	}
	return name
}

func (o *obj) Do(op hx.Op) any {
	switch op.S("o") {
	case "reg":
		if err := o.m.Register(o.tasks[op.I("k")-1]); err != nil {
			return 1
		}
	case "un":
		o.m.Unregister(o.out(op.S("nm")))
	case "all":
		o.m.UnregisterAll()
	}
	return 0
}

func mk(x *hx.X, par hx.Op, clk *hx.Clock) hx.Obj {
	o := &obj{m: schedule.NewTaskManager()}
	o.real, _ = par["map"].(map[string]any)
	for i, n := range par["nm"].([]any) {
		o.tasks = append(o.tasks, &task{x: x, k: i + 1, name: o.out(n.(string))})
	}
	return o
}

func TestSteps(t *testing.T) { hx.ObjSteps(t, time.Millisecond, mk) }
func TestConc(t *testing.T)  { hx.ObjConc(t, time.Millisecond, mk) }

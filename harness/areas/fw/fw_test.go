package fw

import (
	"testing"
	"time"

	rl "github.com/chanjarster/gears/ratelimiter"
	"verif/hx"
)

type obj struct {
	f    rl.FixedWindow
	unit time.Duration
}

func (o obj) Do(op hx.Op) any {
	switch op.S("o") {
	case "acq":
		if o.f.Acquire() {
			return 1
		}
		return 0
	case "cap":
		return o.f.Capacity()
	case "win":
		if o.f.WindowSize()%o.unit != 0 {
			return -1
		}
		return int(o.f.WindowSize() / o.unit)
	}
	panic("op")
}

func mk(x *hx.X, par hx.Op, clk *hx.Clock) hx.Obj {
	unit, err := time.ParseDuration(par.S("unit"))
	if err != nil {
		panic(err)
	}
	win := time.Duration(par.I("w")) * unit
	// start off nanoseconds before a window boundary
	now := time.Now().UnixNano()
	b := (now/int64(win) + 2) * int64(win)
	time.Sleep(time.Duration(b - now - int64(par.I("off"))))
	*clk = *hx.NewClock(unit)
	return obj{rl.NewSyncFixedWindow(par.I("cap"), win), unit}
}

func TestSteps(t *testing.T) { hx.ObjSteps(t, 1, mk) }
func TestConc(t *testing.T)  { hx.ObjConc(t, 1, mk) }

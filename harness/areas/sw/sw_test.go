package sw

import (
	"testing"
	"time"

	rl "github.com/chanjarster/gears/ratelimiter"
	"verif/hx"
)

type obj struct {
	f    rl.SlidingWindow
	unit time.Duration
}

func (o obj) Do(op hx.Op) any {
	switch op.S("o") {
	case "acq":
		if o.f.Acquire() {
			return 1
		}
		return 0
	case "upd":
		o.f.UpdateConfig(op.I("c"), time.Duration(op.I("w"))*o.unit)
		return 0
	case "cap":
		return o.f.Capacity()
	case "win":
		if o.f.WindowSize()%o.unit != 0 {
			return -1
		}
		return int(o.f.WindowSize() / o.unit)
	}
	panic("op")
}

func mk(x *hx.X, par hx.Op, clk *hx.Clock) hx.Obj {
	unit, err := time.ParseDuration(par.S("unit"))
	if err != nil {
		panic(err)
	}
	*clk = *hx.NewClock(unit)
	return obj{rl.NewSyncSlidingWindow(par.I("cap"), time.Duration(par.I("w"))*unit), unit}
}

func TestSteps(t *testing.T) { hx.ObjSteps(t, 1, mk) }
func TestConc(t *testing.T)  { hx.ObjConc(t, 1, mk) }

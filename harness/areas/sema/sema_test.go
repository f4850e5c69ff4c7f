package sema

import (
	"testing"
	"time"

	"github.com/chanjarster/gears/concurrent"
	"verif/hx"
)

type obj struct{ s concurrent.Semaphore }

func (o obj) Do(op hx.Op) any {
	switch op.S("o") {
	case "acq":
		o.s.Acquire()
		return true
	case "try":
		return o.s.TryAcquire()
	case "rel":
		o.s.Release()
		return true
	}
	panic("op")
}

func mk(x *hx.X, par hx.Op, clk *hx.Clock) hx.Obj {
	if par.S("kind") == "chan" {
		return obj{concurrent.NewChanSemaphore(int64(par.I("cap")))}
	}
	return obj{concurrent.NewLockSemaphore(int64(par.I("cap")))}
}

func TestSteps(t *testing.T) { hx.ObjSteps(t, time.Millisecond, mk) }
func TestConc(t *testing.T)  { hx.ObjConc(t, time.Millisecond, mk) }

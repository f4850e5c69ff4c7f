package tb

import (
	"testing"
	"time"

	rl "github.com/chanjarster/gears/ratelimiter"
	"verif/hx"
)

type obj struct{ b rl.TokenBucket }

func (o obj) Do(op hx.Op) any { return o.b.Acquire() }

func mk(x *hx.X, par hx.Op, clk *hx.Clock) hx.Obj {
	if par.S("kind") == "atomic" {
		return obj{rl.NewAtomicTokenBucket(par.I("cap"), par.I("rate"))}
	}
	return obj{rl.NewSyncTokenBucket(par.I("cap"), par.I("rate"))}
}

func TestSteps(t *testing.T) { hx.ObjSteps(t, 250*time.Millisecond, mk) }
func TestConc(t *testing.T)  { hx.ObjConc(t, 250*time.Millisecond, mk) }

package bus

import (
	"fmt"
	"io"
	"log"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/chanjarster/gears/event"
	"verif/hx"
	"verif/vsched"
)

const unit = time.Millisecond

type obj struct {
	b   *event.FanOutBus
	par hx.Op
	mu  sync.Mutex
	rv  map[int]*event.Receiver
	// calls of send and reg under way, whether the bus was closed
	busy   int
	closed bool
	real   map[string]any
}

func (o *obj) out(name string) string {
	if r, ok := o.real[name]; ok {
		return r.(string)
	}
	return name
}

// receivers are used once they are registered; nothing is sent to or registered on a closed bus, which includes
// closing it under a blocked sender
func (o *obj) Skip(op hx.Op) bool {
	o.mu.Lock()
	defer o.mu.Unlock()
	switch op.S("o") {
	case "send", "reg":
		return o.closed
	case "bclose":
		return o.busy > 0
	case "recv", "drain", "collect", "close":
		return o.rv[op.I("r")] == nil
	}
	return false
}

func (o *obj) enter(d int) {
	o.mu.Lock()
	o.busy += d
	o.mu.Unlock()
}

func (o *obj) recv(op hx.Op) *event.Receiver {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.rv[op.I("r")]
}

type event1 struct {
	n int
	s string
}

// value is event v; events may be anything, nil included.
func value(v int) interface{} {
	switch v {
	case 2:
		return nil
	case 3:
		return "event 3"
	case 4:
		return event1{4, "x"}
	case 6:
		return &event1{6, "y"}
	case 7:
		return fmt.Errorf("event %d", v)
	case 9:
		return []int{9}
	}
	return v
}

func ints(l []interface{}) []int {
	r := []int{}
	for _, v := range l {
		n := -9
		switch v := v.(type) {
		case int:
			n = v
		case nil:
			n = 2
		case string:
			n, _ = strconv.Atoi(strings.TrimPrefix(v, "event "))
		case event1:
			n = v.n
		case *event1:
			n = v.n
		case error:
			n, _ = strconv.Atoi(strings.TrimPrefix(v.Error(), "event "))
		case []int:
			n = v[0]
		}
		r = append(r, n)
	}
	return r
}

func (o *obj) Do(op hx.Op) any {
	switch op.S("o") {
	case "go":
		o.b.GoDispatch()
	case "send":
		o.enter(1)
		o.b.C <- value(op.I("v"))
		o.enter(-1)
		vsched.Yield()
	case "reg":
		o.enter(1)
		p := hx.Op(o.par["rv"].([]any)[op.I("r")-1].(map[string]any))
		st := event.Drop
		if p.S("st") == "block" {
			st = event.Block
		}
		var r *event.Receiver
		if st == event.Drop && op.I("r")%2 == 0 {
			r = o.b.NewRecv(o.out(p.S("nm")), p.I("cap"))
		} else {
			r = o.b.NewRecvStrategy(o.out(p.S("nm")), p.I("cap"), st)
		}
		o.enter(-1)
		o.mu.Lock()
		o.rv[op.I("r")] = r
		o.mu.Unlock()
	case "recv":
		r := o.recv(op)
		v, ok := <-r.C
		vsched.Yield()
		if !ok {
			return []int{0}
		}
		return ints([]interface{}{v})
	case "drain":
		return ints(o.recv(op).Drain())
	case "collect":
		t0 := time.Now()
		d := hx.TickDur(op.I("d"), unit)
		l := ints(o.recv(op).CollectTimeout(d))
		e := 0
		if el := time.Since(t0); el < d {
			e = -1
		} else if el > d {
			e = 1
		}
		return append([]int{e}, l...)
	case "close":
		o.recv(op).Close()
	case "bclose":
		o.mu.Lock()
		o.closed = true
		o.mu.Unlock()
		o.b.Close()
	}
	return []int{}
}

func mk(x *hx.X, par hx.Op, clk *hx.Clock) hx.Obj {
	log.SetOutput(io.Discard)
	o := &obj{b: event.NewFanOutBus(par.I("buf")), par: par, rv: map[int]*event.Receiver{}}
	o.real, _ = par["map"].(map[string]any)
	return o
}

func TestSteps(t *testing.T) { hx.ObjSteps(t, unit, mk) }
func TestConc(t *testing.T)  { hx.ObjConc(t, unit, mk) }

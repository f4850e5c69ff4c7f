package load

import (
	"errors"
	"io"
	"log"
	"strconv"
	"sync"
	"testing"
	"time"

	cs "github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/simplelog"
	"verif/hx"
	"verif/vsched"
)

// obj is a store on a persistence layer whose loads last as long as the script wants and fail on demand
type obj struct {
	x    *hx.X
	clk  *hx.Clock
	par  hx.Op
	s    cs.Interface
	pol  cs.LoadPolicy
	mu   sync.Mutex
	n    int
	ver  int
	open []chan bool
}

func (o *obj) Load(s cs.Interface) error {
	ch := make(chan bool, 1)
	n, ver := 0, 0
	at := o.clk.At()
	o.x.LogF(func() hx.Ev {
		o.n++
		n, ver = o.n, o.ver
		return hx.Ev{"e": "lb", "n": n, "at": at}
	})
	ok := true
	auto, _ := o.par["auto"].([]any)
	if len(auto) > 0 {
		ok = auto[(n-1)%len(auto)].(bool)
		vsched.Yield()
	} else {
		o.mu.Lock()
		o.open = append(o.open, ch)
		o.mu.Unlock()
		ok = <-ch
	}
	if ok {
		s.UpdateNoPersist("k", strconv.Itoa(ver))
	}
	vsched.Yield()
	o.x.Log(hx.Ev{"e": "le", "n": n, "ok": ok})
	if !ok {
		return errors.New("load failed")
	}
	return nil
}
func (o *obj) Save(k, v string) error        { return nil }
func (o *obj) BatchSave(l []*cs.KVStr) error { return nil }
func (o *obj) Delete(k string) error         { return nil }
func (o *obj) Silent(op hx.Op) bool          { return op.S("o") == "fin" || op.S("o") == "ext" }

func (o *obj) Do(op hx.Op) any {
	num := func(v string, hit bool) int {
		n, err := strconv.Atoi(v)
		if !hit || err != nil {
			return -1
		}
		return n
	}
	in := func(v any, hit bool) int {
		if n, ok := v.(int); ok && hit {
			return n
		}
		return -1
	}
	switch op.S("o") {
	case "get":
		v, hit := o.s.GetValue("k")
		return in(v, hit)
	case "gets":
		v, hit := o.s.GetValueString("k")
		return num(v, hit)
	case "mget":
		return in(o.s.MustGetValue("k"), true)
	case "mgets":
		return num(o.s.MustGetValueString("k"), true)
	case "bget":
		for _, e := range o.s.BatchGetValues([]string{"", "k"}) {
			return in(e.Value, true)
		}
		return -1
	case "bgets":
		for _, e := range o.s.BatchGetValueString([]string{"k", ""}) {
			return num(e.Value, true)
		}
		return -1
	case "do":
		if o.pol.DoLoad(o.s, o) != nil {
			return 1
		}
		return 0
	case "fin":
		o.mu.Lock()
		var ch chan bool
		if len(o.open) > 0 {
			ch = o.open[0]
			o.open = o.open[1:]
		}
		o.mu.Unlock()
		if ch != nil {
			ch <- op.B("ok")
		}
	case "ext":
		o.x.LogF(func() hx.Ev { o.ver++; return hx.Ev{"e": "ext"} })
	}
	return 0
}

func mk(x *hx.X, par hx.Op, clk *hx.Clock) hx.Obj {
	log.SetOutput(io.Discard)
	simplelog.StdLogger.SetOutput(io.Discard)
	simplelog.ErrLogger.SetOutput(io.Discard)
	clk.Lin = true
	clk.Unit = time.Duration(par.I("u"))
	o := &obj{x: x, clk: clk, par: par}
	if par.B("simple") {
		o.pol = cs.NewSimpleLoadPolicy()
	} else {
		o.pol = cs.NewLoadPolicy(time.Duration(par.I("min")) * clk.Unit)
	}
	o.s = cs.NewStore(o, o.pol)
	if err := o.s.RegisterKey("k", "0", cs.Int); err != nil {
		panic(err)
	}
	return o
}

func TestRounds(t *testing.T) { hx.ObjRounds(t, time.Millisecond, mk, nil) }

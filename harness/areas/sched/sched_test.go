package sched

import (
	"errors"
	"fmt"
	"io"
	"log"
	"sync"
	"testing"
	"time"

	"github.com/chanjarster/gears/schedule"
	"github.com/chanjarster/gears/simplelog"
	"verif/hx"
	"verif/vsched"
)

var unit = time.Millisecond

type cmd struct {
	op  hx.Op
	res chan any
}

// obj is one task; its jobs do what the script tells them to
type obj struct {
	x    *hx.X
	clk  *hx.Clock
	par  hx.Op
	task schedule.Task
	mu   sync.Mutex
	n    int
	jobs map[int]chan cmd
}

func (o *obj) Silent(op hx.Op) bool { return op.S("o") == "end" }

func (o *obj) call(op hx.Op) (res any) {
	must := op.S("o")[0] == 'm'
	defer func() {
		if r := recover(); r != nil {
			if must {
				res = 1
			} else {
				panic(r)
			}
		}
	}()
	var err error
	switch op.S("o") {
	case "start":
		err = o.task.Start()
	case "stop":
		err = o.task.Stop()
	case "mstart":
		o.task.MustStart()
	case "mstop":
		o.task.MustStop()
	}
	if err != nil {
		return 1
	}
	return 0
}

func (o *obj) Do(op hx.Op) any {
	j := op.I("j")
	if j == 0 {
		return o.call(op)
	}
	// the operation is made by (or the end of) job j, if it is running
	o.mu.Lock()
	ch := o.jobs[j]
	if op.S("o") == "end" {
		delete(o.jobs, j)
	}
	o.mu.Unlock()
	if ch == nil {
		if op.S("o") == "end" {
			return 0
		}
		return o.call(op)
	}
	c := cmd{op, make(chan any, 1)}
	ch <- c
	return <-c.res
}

func (o *obj) job(cancel <-chan struct{}) error {
	ch := make(chan cmd, 20)
	n := 0
	at := o.clk.At()
	o.x.LogF(func() hx.Ev {
		o.n++
		n = o.n
		return hx.Ev{"e": "js", "n": n, "at": at}
	})
	pol := "manual"
	if l, ok := o.par["pol"].([]any); ok && len(l) > 0 {
		pol = l[(n-1)%len(l)].(string)
	}
	o.mu.Lock()
	o.jobs[n] = ch
	o.mu.Unlock()
	var end chan any
	for run := pol != "inst"; run; {
		vsched.Yield()
		select {
		case <-cancel:
			cancel = nil
			at := o.clk.At()
			o.x.Log(hx.Ev{"e": "jc", "n": n, "at": at})
			if pol == "obey" {
				run = false
			}
		case c := <-ch:
			if c.op.S("o") == "end" {
				run = false
				end = c.res
			} else {
				c.res <- o.call(c.op)
			}
		}
	}
	o.mu.Lock()
	delete(o.jobs, n)
	o.mu.Unlock()
	vsched.Yield()
	at = o.clk.At()
	o.x.Log(hx.Ev{"e": "je", "n": n, "at": at})
	if end != nil {
		end <- 0
	}
	// what was asked of the job and not done is done elsewhere
	for {
		select {
		case c := <-ch:
			if c.op.S("o") == "end" {
				c.res <- 0
			} else {
				go func() { c.res <- o.call(c.op) }()
			}
			continue
		default:
		}
		break
	}
	if o.par.B("fail") && n%2 == 1 {
		return errors.New("job failed")
	}
	return nil
}

func mk(x *hx.X, par hx.Op, clk *hx.Clock) hx.Obj {
	log.SetOutput(io.Discard)
	simplelog.StdLogger.SetOutput(io.Discard)
	simplelog.ErrLogger.SetOutput(io.Discard)
	clk.Lin = true
	if par.I("u") > 0 {
		clk.Unit = time.Duration(par.I("u"))
	} else {
		clk.Unit = unit
	}
	o := &obj{x: x, clk: clk, par: par, jobs: map[int]chan cmd{}}
	i, t := time.Duration(par.I("i"))*clk.Unit, time.Duration(par.I("t"))*clk.Unit
	if par.S("kind") == "delay" {
		o.task = schedule.NewFixedDelayTask("task", o.job, i, t)
	} else {
		o.task = schedule.NewFixedRateTask("task", o.job, i, t)
	}
	if o.task.Name() != "task" {
		panic(fmt.Sprint("name is ", o.task.Name()))
	}
	return o
}

func TestRounds(t *testing.T) {
	hx.ObjRounds(t, unit, mk, func(o hx.Obj, others int) hx.Ev { return hx.Ev{"g": others} })
}

package ttl

import (
	"context"
	"io"
	"log"
	"strings"
	"testing"
	"time"

	rl "github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/simplelog"
	"github.com/go-redis/redis/v7"
	"verif/fakeredis"
	"verif/hx"
	"verif/vsched"
)

const unit = 250 * time.Millisecond

// what the keys, messages and tags of a script are called unless it says so itself
var names0 = []string{"", "user:1", "a b", "日本", "k4", "k5"}
var msgs0 = []string{"", "too fast", "it's \"blocked\"\r\n* 2", "消息", "0", strings.Repeat("long ", 80)}
var tags0 = []string{"", "t1", "t2", "web:3"}

func texts(par hx.Op, key string, dflt []string) []string {
	l, ok := par[key].([]any)
	if !ok {
		return dflt
	}
	r := []string{""}
	for _, x := range l {
		r = append(r, x.(string))
	}
	return r
}

type params struct{ c, w, e int }

func (p *params) GetWindowSizeSeconds() int { return p.w }
func (p *params) GetCapacity() int          { return p.c }
func (p *params) GetTimeoutSeconds() int    { return p.e }

type obj struct {
	lims  []rl.TtlRateLimiter
	ps    []*params
	bk    []any
	fault string
	tags  []string
	want  string // tag of the limiter in use
	bad   bool   // a key without it was addressed

	names, msgs []string
}

func (o *obj) res(r *rl.Result) []int {
	if o.bad {
		return []int{-9, 0, 0, 0}
	}
	if r == nil {
		return []int{-7, 0, 0, 0}
	}
	b := func(x bool) int {
		if x {
			return 1
		}
		return 0
	}
	m := -1
	for i, s := range o.msgs {
		if s == r.Msg {
			m = i
		}
	}
	return []int{b(r.Block), b(r.Triggered), r.Ttl, m}
}

func (o *obj) Do(op hx.Op) any {
	l := op.I("l") - 1
	ctx := context.Background()
	switch op.S("o") {
	case "req":
		o.want = o.tags[l]
		k := op.I("k")
		b := int(o.bk[k-1].(float64))
		r, m := o.lims[l], o.msgs[op.I("m")]
		v := op.I("v")
		if v > 1 && b != k {
			v -= 2
		}
		switch v {
		case 0:
			return o.res(r.ShouldBlock2Context(ctx, o.names[k], o.names[b], m))
		case 1:
			return o.res(r.ShouldBlock2(o.names[k], o.names[b], m))
		case 2:
			return o.res(r.ShouldBlock(o.names[k], m))
		}
		return o.res(r.ShouldBlockContext(ctx, o.names[k], m))
	case "isb":
		o.want = o.tags[l]
		if op.I("v") == 0 {
			return o.res(o.lims[l].IsBlocked(o.names[op.I("b")]))
		}
		return o.res(o.lims[l].IsBlockedContext(ctx, o.names[op.I("b")]))
	case "get":
		r := o.lims[l]
		return []int{r.GetCapacity(), r.GetWindowSizeSeconds(), r.GetTimeoutSeconds(), 0}
	case "set":
		o.ps[l].c, o.ps[l].e = op.I("cap"), op.I("exp")
	case "fault":
		o.fault = op.S("f")
	}
	return []int{0, 0, 0, 0}
}

func mk(x *hx.X, par hx.Op, clk *hx.Clock) hx.Obj {
	log.SetOutput(io.Discard)
	simplelog.ErrLogger.SetOutput(io.Discard)
	s := fakeredis.New()
	o := &obj{bk: par["bk"].([]any), names: texts(par, "names", names0), msgs: texts(par, "msgs", msgs0)}
	tags := texts(par, "tags", tags0)
	c := redis.NewClient(&redis.Options{Addr: "fake", Dialer: s.Dial, PoolSize: 16, IdleCheckFrequency: -1, ReadTimeout: -1, PoolTimeout: time.Hour})
	rl.LoadScript(c)
	for i, v := range par["lims"].([]any) {
		q := hx.Op(v.(map[string]any))
		p := &params{q.I("cap"), q.I("win"), q.I("exp")}
		var ps rl.TtlRateLimiterParams = p
		if par.B("fixed") {
			ps = rl.NewFixedTtlRateLimiterParams(p.c, p.w, p.e)
		}
		o.ps = append(o.ps, p)
		o.tags = append(o.tags, tags[q.I("tag")])
		if t := tags[q.I("tag")]; t == "" {
			o.lims = append(o.lims, rl.NewRedisTtlRateLimiter(c, ps))
		} else {
			if i%2 == 0 {
				t = "{" + t + "}"
			}
			o.lims = append(o.lims, rl.NewRedisTtlRateLimiterCluster(c, ps, t))
		}
	}
	s.Before = func(cmd []string) { vsched.Yield() }
	s.Fault = func(cmd []string) string {
		if o.want != "" && len(fakeredis.Untagged(cmd, o.want)) > 0 {
			o.bad = true
		}
		f := o.fault
		o.fault = ""
		return f
	}
	return o
}

func TestSteps(t *testing.T) { hx.ObjSteps(t, unit, mk) }
func TestConc(t *testing.T)  { hx.ObjConc(t, unit, mk) }

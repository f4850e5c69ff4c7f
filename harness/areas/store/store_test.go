package store

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	cs "github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/simplelog"
	"github.com/go-redis/redis/v7"
	"verif/fakeredis"
	"verif/hx"
	"verif/vsched"
)

// the processors of the specification: A accepts what has an a, B the empty value and what has a b
type proc struct {
	name string
	o    *obj
}
type typed struct {
	p *proc
	v string
}

func (p *proc) Validate(v string) (bool, string) {
	vsched.Yield()
	v = p.o.back(v)
	if p.name == "A" && strings.Contains(v, "a") || p.name == "B" && (v == "" || strings.Contains(v, "b")) {
		return true, ""
	}
	return false, "not for " + p.name
}
func (p *proc) Convert(v string) interface{} {
	vsched.Yield()
	if p.o.same {
		// different texts for the same value
		switch m := p.o.back(v); m {
		case "a2", "b2":
			v = p.o.out(m[:1] + "1")
		}
	}
	if i, ok := p.o.conv[[2]string{p.name, p.o.back(v)}]; ok {
		return kinds[i]
	}
	return typed{p, v}
}

// what processors may convert values to; all of different types
var kinds = []any{nil, 0, false, "", []string(nil), map[string]int{"": 0}, (*int)(nil), struct{}{}, errors.New("a value"), time.Duration(0), [0]int{}, 0.0, (cs.ValueProcessor)((*proc)(nil)), uint8(0)}
var pairs = [][2]string{{"A", "a1"}, {"A", "a2"}, {"A", "ab"}, {"B", ""}, {"B", "b1"}, {"B", "b2"}, {"B", "ab"}}

// persister in memory; fails on demand
type memp struct {
	o    *obj
	mu   sync.Mutex
	m    map[string]string
	hold chan struct{}
}

func (p *memp) step() error {
	vsched.Yield()
	if p.o.isFault() {
		return errors.New("persister down")
	}
	return nil
}
func (p *memp) all() map[string]string {
	p.mu.Lock()
	defer p.mu.Unlock()
	r := map[string]string{}
	for k, v := range p.m {
		r[k] = v
	}
	return r
}
func (p *memp) Load(s cs.Interface) error {
	if err := p.step(); err != nil {
		return err
	}
	m := p.all()
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		vsched.Yield()
		s.UpdateNoPersist(k, m[k])
	}
	return nil
}
func (p *memp) Save(k, v string) error { return p.BatchSave([]*cs.KVStr{{Key: k, Value: v}}) }
func (p *memp) BatchSave(l []*cs.KVStr) error {
	if err := p.step(); err != nil {
		return err
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, kv := range l {
		p.m[kv.Key] = kv.Value
	}
	return nil
}
func (p *memp) Delete(k string) error {
	if err := p.step(); err != nil {
		return err
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	delete(p.m, k)
	return nil
}

type obj struct {
	s      cs.Interface
	per    cs.Persister
	pol    cs.LoadPolicy
	mem    *memp
	red    *redis.Client
	mu     sync.Mutex
	fault  bool
	admin  bool
	reg    map[string][2]string
	procs  map[string]cs.ValueProcessor
	real   map[string]string // what the keys and values of the script are called here, and the other way round
	model  map[string]string
	same   bool
	conv   map[[2]string]int
	unconv map[int][2]string
}

func (o *obj) out(s string) string {
	if r, ok := o.real[s]; ok {
		return r
	}
	return s
}

func (o *obj) back(s string) string {
	if r, ok := o.model[s]; ok {
		return r
	}
	if o.real != nil && s != "" {
		return "unknown text " + s
	}
	return s
}

func (o *obj) isFault() bool { o.mu.Lock(); defer o.mu.Unlock(); return o.fault }

func (o *obj) kerr(l []any, e *cs.KVError) []any {
	if e == nil {
		return l
	}
	if e.Error == "" {
		return append(l, []string{"no message", ""})
	}
	return append(l, []string{o.back(e.Key), o.back(e.Value)})
}

func (o *obj) tv(v any, hit bool) []any {
	if hit {
		for i, k := range kinds {
			if p, ok := o.unconv[i]; ok && reflect.TypeOf(k) == reflect.TypeOf(v) {
				return []any{p[0], p[1]}
			}
		}
	}
	if !hit {
		if v != nil {
			return []any{"missing but", fmt.Sprint(v)}
		}
		return []any{}
	}
	t, ok := v.(typed)
	if !ok {
		return []any{"not typed", fmt.Sprint(v)}
	}
	return []any{t.p.name, o.back(t.v)}
}

func (o *obj) sv(v string, hit bool) []any {
	if !hit {
		if v != "" {
			return []any{"missing but", v}
		}
		return []any{}
	}
	return []any{"", o.back(v)}
}

func (o *obj) keys(op hx.Op) []string {
	r := []string{}
	for _, k := range op["ks"].([]any) {
		r = append(r, o.out(k.(string)))
	}
	return r
}

func (o *obj) Do(op hx.Op) any {
	k, v := o.out(op.S("k")), o.out(op.S("v"))
	l := []any{}
	switch op.S("o") {
	case "reg":
		var p cs.ValueProcessor = o.procs[op.S("p")]
		if op.S("p") == "nil" {
			p = (*proc)(nil)
			if op.S("k") == "k1" {
				p = nil
			}
		}
		if err := o.s.RegisterKey(k, v, p); err != nil {
			return []any{"err"}
		}
		o.mu.Lock()
		o.reg[k] = [2]string{v, op.S("p")}
		o.mu.Unlock()
		return []any{"ok"}
	case "dereg":
		o.s.DeregisterKey(k)
		o.mu.Lock()
		delete(o.reg, k)
		o.mu.Unlock()
		return l
	case "reset":
		o.s.ResetKey(k)
		return l
	case "upd":
		return o.kerr(l, o.s.Update(k, v))
	case "updnp":
		return o.kerr(l, o.s.UpdateNoPersist(k, v))
	case "batch":
		var in []*cs.KVStr
		for _, e := range op["kv"].([]any) {
			in = append(in, &cs.KVStr{Key: o.out(e.([]any)[0].(string)), Value: o.out(e.([]any)[1].(string))})
		}
		for _, e := range o.s.BatchUpdate(in) {
			l = o.kerr(l, e)
		}
		return l
	case "get":
		x, hit := o.s.GetValue(k)
		return o.tv(x, hit)
	case "gets":
		x, hit := o.s.GetValueString(k)
		return o.sv(x, hit)
	case "mget", "mgets":
		var res []any
		func() {
			defer func() {
				if recover() != nil {
					res = []any{}
				}
			}()
			if op.S("o") == "mget" {
				res = o.tv(o.s.MustGetValue(k), true)
			} else {
				res = o.sv(o.s.MustGetValueString(k), true)
			}
		}()
		return res
	case "bget":
		for _, e := range o.s.BatchGetValues(o.keys(op)) {
			l = append(l, append([]any{o.back(e.Key)}, o.tv(e.Value, true)...))
		}
		return l
	case "bgets":
		for _, e := range o.s.BatchGetValueString(o.keys(op)) {
			l = append(l, append([]any{o.back(e.Key)}, o.sv(e.Value, true)...))
		}
		return l
	case "load":
		if err := o.per.Load(o.s); err != nil {
			return []any{"err"}
		}
		return []any{"ok"}
	case "fault":
		o.mu.Lock()
		o.fault = op.B("on")
		o.mu.Unlock()
		return l
	case "ext":
		// another process writes
		if o.mem != nil {
			o.mem.mu.Lock()
			o.mem.m[k] = v
			o.mem.mu.Unlock()
		} else {
			o.admin = true
			err := o.red.HSet("root", k, v).Err()
			o.admin = false
			if err != nil {
				panic(err)
			}
		}
		return l
	case "restart":
		o.s = cs.NewStore(o.per, o.pol)
		for k, r := range o.reg {
			if err := o.s.RegisterKey(k, r[0], o.procs[r[1]]); err != nil {
				return []any{"err"}
			}
		}
		return l
	case "dump":
		var m map[string]string
		if o.mem != nil {
			m = o.mem.all()
		} else {
			o.admin = true
			m, _ = o.red.HGetAll("root").Result()
			o.admin = false
		}
		ks := []string{}
		mm := map[string]string{}
		for k, v := range m {
			k = o.back(k)
			ks = append(ks, k)
			mm[k] = o.back(v)
		}
		sort.Strings(ks)
		for _, k := range ks {
			l = append(l, []string{k, mm[k]})
		}
		return l
	}
	return nil
}

func mk(x *hx.X, par hx.Op, clk *hx.Clock) hx.Obj {
	log.SetOutput(io.Discard)
	simplelog.StdLogger.SetOutput(io.Discard)
	simplelog.ErrLogger.SetOutput(io.Discard)
	o := &obj{reg: map[string][2]string{}}
	o.procs = map[string]cs.ValueProcessor{"A": &proc{"A", o}, "B": &proc{"B", o}}
	o.same = par.B("same")
	if l, ok := par["conv"].([]any); ok {
		o.conv, o.unconv = map[[2]string]int{}, map[int][2]string{}
		for i, p := range pairs {
			n := int(l[i].(float64))
			o.conv[p], o.unconv[n] = n, p
		}
	}
	if m, ok := par["map"].(map[string]any); ok {
		o.real, o.model = map[string]string{}, map[string]string{}
		for k, v := range m {
			o.real[k], o.model[v.(string)] = v.(string), k
		}
	}
	if par.S("per") == "redis" {
		srv := fakeredis.New()
		srv.Fault = func(c []string) string {
			if o.isFault() && !o.admin {
				return par.S("flt")
			}
			return ""
		}
		dial := func(ctx context.Context, network, addr string) (net.Conn, error) { return srv.Dial(ctx, network, addr) }
		cl := func() *redis.Client {
			return redis.NewClient(&redis.Options{Addr: "r:1", Dialer: dial, PoolSize: 3, IdleTimeout: -1, IdleCheckFrequency: -1, MaxRetries: -1})
		}
		o.red = cl()
		o.per = cs.NewRedisPersister(cl(), "root")
	} else {
		o.mem = &memp{o: o, m: map[string]string{}}
		o.per = o.mem
	}
	switch par.S("pol") {
	case "simple":
		o.pol = cs.NewSimpleLoadPolicy()
	case "zero":
		o.pol = cs.NewLoadPolicy(time.Duration(par.I("neg")))
	default:
		o.pol = cs.NoopLoadPolicy
	}
	o.s = cs.NewStore(o.per, o.pol)
	return o
}

func TestSteps(t *testing.T) { hx.ObjSteps(t, time.Millisecond, mk) }
func TestConc(t *testing.T)  { hx.ObjConc(t, time.Millisecond, mk) }

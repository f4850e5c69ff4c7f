package mask

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"log"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/chanjarster/gears/confs"
	"verif/hx"
)

var kinds = map[string]any{
	"mysql": confs.MysqlConf{}, "oracle": confs.OracleConf{}, "postgresql": confs.PostgresqlConf{},
	"redis": confs.RedisConf{}, "es": confs.EsConf{}, "pprof": confs.PprofConf{},
}

type op struct {
	K    string   `json:"k"`
	I    int      `json:"i"`
	Kind string   `json:"kind"`
	V    string   `json:"v"`
	U    []string `json:"u"`
	P    []string `json:"p"`
	F    string   `json:"f"`
}

// fill gives every public field a value determined by seed.
func fill(c reflect.Value, seed string) {
	h := fnv.New64a()
	h.Write([]byte(seed))
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	for i := 0; i < c.NumField(); i++ {
		f := c.Field(i)
		n := r.Intn(1000)
		if name := c.Type().Field(i).Name; name == "Username" || name == "Password" || !f.CanSet() {
			continue
		}
		switch {
		case f.Type() == reflect.TypeOf(time.Second):
			f.SetInt(int64(n*(n/500)) * int64(time.Millisecond))
		case f.CanInt():
			f.SetInt(int64(n % 100 * (n / 500)))
		case f.CanUint():
			f.SetUint(uint64(n % 100))
		case f.Kind() == reflect.Bool:
			f.SetBool(n%2 == 0)
		case f.Kind() == reflect.String:
			f.SetString([]string{"", "localhost", "db.example", "a=b,c=d", "%s", "x:1,y:2", "", "", "", "db1"}[n%10])
		}
	}
}

func set(c reflect.Value, name string, t []string) {
	if f := c.FieldByName(name); f.IsValid() {
		f.SetString(strings.Join(t, ""))
	}
}

// show prints what p points to.
func show(p reflect.Value, form string) string {
	x, v := p.Interface(), p.Elem().Interface()
	wrap := func(x any) any {
		s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "N", Type: reflect.TypeOf(1)}, {Name: "Conf", Type: reflect.TypeOf(x)}})).Elem()
		s.Field(1).Set(reflect.ValueOf(x))
		return s.Interface()
	}
	slice := func(x any) any {
		return reflect.Append(reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(x)), 0, 1), reflect.ValueOf(x)).Interface()
	}
	switch form {
	case "String":
		if s, ok := x.(fmt.Stringer); ok {
			return s.String()
		}
		return "not a Stringer"
	case "v", "+v", "s":
		return fmt.Sprintf("%"+form, x)
	case "ln":
		return fmt.Sprintln("loaded", x)
	case "log":
		var b bytes.Buffer
		log.New(&b, "", 0).Print("configuration: ", x)
		return b.String()
	case "wrap":
		return fmt.Sprintf("%+v", wrap(x))
	case "slice":
		return fmt.Sprint(slice(x))
	case "map":
		return fmt.Sprint(map[string]any{"conf": x})
	case "err":
		return fmt.Errorf("bad: %v", x).Error()
	case "val":
		return fmt.Sprint(v)
	case "val+v":
		return fmt.Sprintf("%+v", v)
	case "valwrap":
		return fmt.Sprintf("%+v", wrap(v))
	case "valslice":
		return fmt.Sprintf("%v", slice(v))
	}
	panic(form)
}

func TestMask(t *testing.T) {
	var in struct{ Scripts []struct{ L []op } }
	hx.In(t, &in)
	ts := &hx.Traces{}
	for _, s := range in.Scripts {
		obj := map[int]reflect.Value{}
		var evs []hx.Ev
		for _, o := range s.L {
			p := obj[o.I]
			e := hx.Ev{"k": o.K, "i": o.I}
			switch o.K {
			case "make":
				p = reflect.New(reflect.TypeOf(kinds[o.Kind]))
				obj[o.I] = p
				fill(p.Elem(), o.V)
				set(p.Elem(), "Username", o.U)
				set(p.Elem(), "Password", o.P)
				e["kind"], e["v"], e["u"], e["p"] = o.Kind, o.V, o.U, o.P
			case "pub":
				fill(p.Elem(), o.V)
				e["v"] = o.V
			case "user":
				set(p.Elem(), "Username", o.U)
				e["u"] = o.U
			case "pass":
				set(p.Elem(), "Password", o.P)
				e["p"] = o.P
			case "print":
				e["f"], e["s"] = o.F, show(p, o.F)
			}
			evs = append(evs, e)
		}
		ts.Add(map[string]any{"ev": evs})
	}
	hx.OutTraces(t, ts)
}

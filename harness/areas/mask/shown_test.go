package mask

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/skywalking"
	"verif/hx"
)

var more = map[string]any{"http": confs.FastHttpClientConf{}, "trace": skywalking.Conf{}}

type val struct {
	N string `json:"n"`
	T string `json:"t"`
}

// settings are the fields of a configuration that are no secrets
func settings(c reflect.Value) (names []string) {
	for i := 0; i < c.NumField(); i++ {
		if n := c.Type().Field(i).Name; n != "Username" && n != "Password" && c.Field(i).CanSet() {
			names = append(names, n)
		}
	}
	return
}

// give f a value that no other setting has, or none at all
func give(f reflect.Value, k int, r *rand.Rand) {
	zero := r.Intn(6) == 0
	if zero {
		k = 0
	}
	switch {
	case f.Type() == reflect.TypeOf(time.Second):
		f.SetInt(int64(k) * []int64{1, 1000, 1000000, 1000000000, 60000000000, 3600000000000}[r.Intn(6)])
	case f.CanInt():
		if r.Intn(8) == 0 {
			k = -k
		}
		f.SetInt(int64(k))
	case f.CanUint():
		f.SetUint(uint64(k))
	case f.Kind() == reflect.Bool:
		f.SetBool(k%2 == 1)
	case f.Kind() == reflect.String:
		if zero {
			f.SetString("")
		} else {
			f.SetString([]string{"", "/x/", "%s", "%d%%", "true", "é"}[r.Intn(6)] + fmt.Sprintf("v%d", k) + strings.Repeat("w", r.Intn(3)*r.Intn(60)))
		}
	}
}

// told finds what text says about the settings: "Name: value", up to a comma or bracket
func told(text string, names []string) []val {
	out := []val{}
	for _, n := range names {
		for at := 0; ; {
			i := strings.Index(text[at:], n+":")
			if i < 0 {
				break
			}
			i += at
			at = i + len(n) + 1
			if i > 0 && !strings.ContainsRune(" {,[\t\n", rune(text[i-1])) {
				continue
			}
			v := strings.TrimPrefix(text[at:], " ")
			if j := strings.IndexAny(v, ",}]\n"); j >= 0 {
				v = v[:j]
			}
			out = append(out, val{n, v})
		}
	}
	return out
}

func TestShown(t *testing.T) {
	var in struct {
		Seed    int64
		Scripts []struct {
			Acts []struct {
				O    string `json:"o"`
				I    int    `json:"i"`
				Kind string `json:"kind"`
				N    int    `json:"n"`
				F    string `json:"f"`
			} `json:"acts"`
		}
	}
	hx.In(t, &in)
	ts := &hx.Traces{}
	r := rand.New(rand.NewSource(in.Seed))
	named := 0
	for _, s := range in.Scripts {
		obj := map[int]reflect.Value{}
		var evs []hx.Ev
		k := 100
		for _, o := range s.Acts {
			p := obj[o.I]
			e := hx.Ev{"o": o.O, "i": o.I}
			switch o.O {
			case "make":
				z, ok := kinds[o.Kind]
				if !ok {
					z = more[o.Kind]
				}
				p = reflect.New(reflect.TypeOf(z))
				obj[o.I] = p
				vals := []val{}
				for _, n := range settings(p.Elem()) {
					f := p.Elem().FieldByName(n)
					k++
					give(f, k, r)
					vals = append(vals, val{n, fmt.Sprint(f.Interface())})
				}
				set(p.Elem(), "Username", []string{"u"})
				set(p.Elem(), "Password", []string{"p"})
				e["kind"], e["vals"] = o.Kind, vals
			case "set":
				ns := settings(p.Elem())
				n := ns[o.N%len(ns)]
				f := p.Elem().FieldByName(n)
				k++
				give(f, k, r)
				e["n"], e["t"] = n, fmt.Sprint(f.Interface())
			case "print":
				w := told(show(p, o.F), settings(p.Elem()))
				named += len(w)
				e["told"] = w
			}
			evs = append(evs, e)
		}
		ts.Add(map[string]any{"ev": evs})
	}
	if named == 0 {
		fmt.Println("no setting is named in any printed text")
	}
	hx.OutTraces(t, ts)
}

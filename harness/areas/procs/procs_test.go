package procs

import (
	"fmt"
	"net/url"
	"strconv"
	"strings"
	"testing"
	"time"

	cs "github.com/chanjarster/gears/confstore"
	"verif/hx"
)

type In struct {
	Scripts []Script
	Shard   int
}
type Script struct {
	Par hx.Op
	L   [][]string
}

func num(v any) int {
	o := hx.ToOp(v)
	s := ""
	if o.B("n") {
		s = "-"
	}
	for _, d := range o["d"].([]any) {
		s += strconv.Itoa(int(d.(float64)))
	}
	if s == "" || s == "-" {
		return 0
	}
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return n
}

var named = map[string]cs.ValueProcessor{"String": cs.String, "Bool": cs.Bool, "Int": cs.Int, "IntGtZero": cs.IntGtZero, "IntGtEqZero": cs.IntGtEqZero,
	"Duration": cs.Duration, "Url": cs.Url, "UrlString": cs.UrlString, "CssColorHex": cs.CssColorHex}

func proc(par hx.Op) cs.ValueProcessor {
	if p := named[par.S("name")]; p != nil {
		return p
	}
	switch par.S("k") {
	case "int":
		return cs.IntProcessor(num(par["lo"]), par.B("loi"), num(par["hi"]), par.B("hii"))
	case "str":
		return cs.StringProcessor(par.I("min"), par.I("max"))
	case "enum":
		var m []string
		for _, s := range par["m"].([]any) {
			m = append(m, s.(string))
		}
		return cs.EnumProcessor(m)
	case "bool":
		return cs.Bool
	case "dur":
		return cs.Duration
	case "css":
		return cs.CssColorHex
	case "url":
		return cs.Url
	case "urls":
		return cs.UrlString
	}
	panic("kind")
}

func value(v any) []string {
	switch v := v.(type) {
	case int:
		return []string{"int", strconv.Itoa(v)}
	case bool:
		return []string{"bool", strconv.FormatBool(v)}
	case string:
		return []string{"str", v}
	case time.Duration:
		sg, u := "", uint64(v)
		if v < 0 {
			sg, u = "-", -uint64(v)
		}
		return []string{"dur", sg, fmt.Sprint(u / 3600e9), fmt.Sprint(u / 1e9 % 3600), fmt.Sprint(u % 1e9)}
	case *url.URL:
		if v == nil {
			return []string{"nil"}
		}
		return []string{"url", v.Scheme, v.User.String(), v.Host, v.Path, v.RawQuery}
	}
	return []string{fmt.Sprintf("%T", v)}
}

func TestTexts(t *testing.T) {
	var in In
	hx.In(t, &in)
	ts := &hx.Traces{}
	for _, s := range in.Scripts {
		p := proc(s.Par)
		evs := []hx.Ev{}
		for _, toks := range s.L {
			v := []string{}
			x := strings.Join(toks, "")
			ok := false
			func() {
				defer func() {
					if r := recover(); r != nil {
						v = []string{"panic"}
						ok = true
					}
				}()
				ok, _ = p.Validate(x)
				if ok {
					v = value(p.Convert(x))
				}
			}()
			if toks == nil {
				toks = []string{}
			}
			evs = append(evs, hx.Ev{"s": toks, "ok": ok, "v": v})
		}
		ts.Add(map[string]any{"par": s.Par, "ev": evs})
	}
	hx.OutTraces(t, ts)
}

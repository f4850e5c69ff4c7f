package auth

import (
	"encoding/base64"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"testing"

	"github.com/chanjarster/gears/confs"
	"github.com/gin-gonic/gin"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
	"verif/hx"
)

type header struct {
	Sch string   `json:"sch"`
	Gap string   `json:"gap"`
	Enc string   `json:"enc"`
	Txt []string `json:"txt"`
}

type endpoint struct {
	Fw string   `json:"fw"`
	U  []string `json:"u"`
	P  []string `json:"p"`
}

type request struct {
	C      int      `json:"c"`
	H      []header `json:"h"`
	Path   string
	Method string
}

type script struct {
	Par  []endpoint
	L    []request
	Conc bool
}

// value is the header text; the encoding is called std if the text comes out the same.
func (h *header) value() string {
	t := strings.Join(h.Txt, "")
	std := base64.StdEncoding.EncodeToString([]byte(t))
	v := std
	switch h.Enc {
	case "raw":
		v = base64.RawStdEncoding.EncodeToString([]byte(t))
	case "url":
		v = base64.URLEncoding.EncodeToString([]byte(t))
	case "plain":
		v = t
	case "double":
		v = base64.StdEncoding.EncodeToString([]byte(std))
	case "trail":
		v = std + " "
	case "cut":
		v = strings.TrimRight(std, "=")
		if v != "" {
			v = v[:len(v)-1]
		}
	case "tail":
		v = std + "!"
	case "junk":
		v = "!" + std
	}
	if v == std {
		h.Enc = "std"
	}
	return h.Sch + h.Gap + v
}

const gate = "profiling data of the guarded endpoint"

// what profiling data looks like
var mark = map[string]string{
	"/debug/pprof/":                      "goroutine",
	"/debug/pprof/cmdline":               os.Args[0],
	"/debug/pprof/symbol":                "num_symbols",
	"/debug/pprof/goroutine?debug=1":     "goroutine profile:",
	"/debug/pprof/heap?debug=1":          "heap profile:",
	"/debug/pprof/threadcreate?debug=1":  "threadcreate profile:",
}

type server func(method, path string, hs []string) (served bool)

func ginServer(c *confs.PprofConf) server {
	gin.SetMode(gin.ReleaseMode)
	e := gin.New()
	e.GET("/open", func(c *gin.Context) { c.String(200, "open") })
	h := func(c *gin.Context) { c.String(200, gate) }
	g := e.Group("/debug", confs.NewGinPprofBasicAuthFilter(c))
	g.GET("/pprof/*x", h)
	g.POST("/pprof/*x", h)
	return func(method, path string, hs []string) bool {
		r := httptest.NewRequest(method, path, nil)
		for _, h := range hs {
			r.Header["Authorization"] = append(r.Header["Authorization"], h)
		}
		w := httptest.NewRecorder()
		e.ServeHTTP(w, r)
		b := w.Body.String()
		return strings.Contains(b, gate)
	}
}

func fastServer(c *confs.PprofConf) server {
	router := routing.New()
	router.Any("/debug/pprof/*", confs.NewFasthttpRoutingPprofHandler(c))
	return func(method, path string, hs []string) bool {
		var ctx fasthttp.RequestCtx
		ctx.Init(&fasthttp.Request{}, nil, nil)
		ctx.Request.Header.SetMethod(method)
		ctx.Request.SetRequestURI("http://localhost" + path)
		for _, h := range hs {
			ctx.Request.Header.Add("Authorization", h)
		}
		router.HandleRequest(&ctx)
		m := mark[path]
		b := string(ctx.Response.Body())
		return m != "" && strings.Contains(b, m)
	}
}

// build makes the endpoint; one that cannot be made panics on every request,
// which no behaviour of the specification allows.
func build(fw string, c *confs.PprofConf) (s server) {
	defer func() {
		if x := recover(); x != nil {
			s = func(string, string, []string) bool { panic(x) }
		}
	}()
	if fw == "gin" {
		return ginServer(c)
	}
	return fastServer(c)
}

func TestAuth(t *testing.T) {
	var in struct{ Scripts []script }
	hx.In(t, &in)
	ts := &hx.Traces{}
	for _, s := range in.Scripts {
		var sv []server
		for _, p := range s.Par {
			c := &confs.PprofConf{Username: strings.Join(p.U, ""), Password: strings.Join(p.P, "")}
			sv = append(sv, build(p.Fw, c))
		}
		var mu sync.Mutex
		evs := []hx.Ev{}
		do := func(id int, r request) {
			var hs []string
			for i := range r.H {
				hs = append(hs, r.H[i].value())
			}
			if r.H == nil {
				r.H = []header{}
			}
			mu.Lock()
			evs = append(evs, hx.Ev{"e": "req", "t": id, "c": r.C, "h": r.H, "path": r.Path})
			mu.Unlock()
			e := hx.Ev{"e": "ans", "t": id}
			func() {
				defer func() {
					if x := recover(); x != nil {
						e["e"] = "panic"
					}
				}()
				e["b"] = sv[r.C-1](r.Method, r.Path, hs)
			}()
			mu.Lock()
			evs = append(evs, e)
			mu.Unlock()
		}
		if s.Conc {
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := g; i < len(s.L); i += 4 {
						do(i+1, s.L[i])
					}
				}()
			}
			wg.Wait()
		} else {
			for i, r := range s.L {
				do(i+1, r)
			}
		}
		ts.Add(map[string]any{"par": s.Par, "ev": evs})
	}
	hx.OutTraces(t, ts)
}


package span

import (
	"bufio"
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/SkyAPM/go2sky"
	"github.com/chanjarster/gears/skywalking"
	swhttp "github.com/chanjarster/gears/skywalking/fasthttp"
	swrouting "github.com/chanjarster/gears/skywalking/fasthttp-routing"
	swredis "github.com/chanjarster/gears/skywalking/redis"
	"github.com/go-redis/redis/v7"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
	"skywalking.apache.org/repo/goapi/collect/language/agent/v3"
	"verif/hx"
)

type handler struct {
	A  string `json:"a"`
	St int    `json:"st"`
	B  string `json:"b"`
	Sl bool   `json:"sl"`
}

type command struct {
	N string `json:"n"`
	R string `json:"r"`
}

type op struct {
	K      string    `json:"k"`
	By     int       `json:"by"`
	At     int       `json:"at"`
	Chain  []handler `json:"chain"`
	Sw8    string    `json:"sw8"`
	M      string    `json:"m"`
	Path   string    `json:"path"`
	Rb     string    `json:"rb"`
	Srv    int       `json:"srv"`
	Host   string    `json:"host"`
	NilCtx bool      `json:"nilctx"`
	Cmds   []command `json:"cmds"`
	Conn   string    `json:"conn"`
}

// opt are the options of the three instruments.
type opt struct {
	Sle bool   `json:"sle"`
	Slb bool   `json:"slb"`
	Cle bool   `json:"cle"`
	Clb bool   `json:"clb"`
	Rle bool   `json:"rle"`
	Rar bool   `json:"rar"`
	Db  string `json:"db"`
}

type par struct {
	Srv  string `json:"srv"`
	Cli  string `json:"cli"`
	Red  string `json:"red"`
	Addr bool   `json:"addr"`
	Opt  opt    `json:"opt"`
	Ops  []op   `json:"ops"`
}

type script struct {
	Par     par
	Raw     map[string]any `json:"-"`
	Threads []int          // of the operations run by the driver
	Conc    bool           // operations of a handler run side by side
	Upper   bool
	Stream  bool
	Pad     int  // how much longer texts are
	Noop    bool // spans go nowhere
	Seed    int64
}

type run struct {
	x    *hx.X
	s    *script
	mu   sync.Mutex
	rnd  *rand.Rand
	seg  map[string]int
	tr   map[string]int
	exec map[int][]int

	mw     routing.Handler
	cli    *swhttp.ClientSpanHelper
	up     *redis.Client
	down   *redis.Client
	router *routing.Router // with routes
	none   *routing.Router // middleware on the router itself, no such route
	calls  map[*fasthttp.RequestCtx]*call
	closed []io.Closer
	hosts  []*fasthttp.HostClient
}

type call struct {
	o     int
	calls []int
	work  bool
}

func (r *run) delay() {
	r.mu.Lock()
	n := r.rnd.Intn(8)
	r.mu.Unlock()
	if n > 3 {
		time.Sleep(time.Duration(n-3) * 7 * time.Millisecond)
	}
}

func (r *run) now() int { return int(time.Since(r.x.T0) / time.Millisecond) }

func (r *run) log(e string, o int, kv ...any) {
	ev := hx.Ev{"e": e, "o": o}
	for i := 0; i < len(kv); i += 2 {
		ev[kv[i].(string)] = kv[i+1]
	}
	if e == "work" {
		ev["t"] = r.now()
	}
	r.x.Log(ev)
}

// ---------------------------------------------------------------- reporter

type recorder struct{ r *run }

func (recorder) Boot(string, string, []go2sky.AgentConfigChangeWatcher) {}
func (recorder) Close()                                               {}

func num(m map[string]int, k string) int {
	if _, ok := m[k]; !ok {
		m[k] = len(m)
	}
	return m[k]
}

var pathRe = regexp.MustCompile(`/o(\d+)(\?|$)`)
var longKeyRe = regexp.MustCompile(`k\d+_\d+x*`)
var keyRe = regexp.MustCompile(`k(\d+)_\d+`)

var pieceRe = regexp.MustCompile(`[kev]\d+_\d+x*|b\d+\.\d+x*|\bq\d+\b|driver|a b`)
var libErrs = map[string]string{"redis: nil": "nil", "redis: transaction failed": "txf", "EXECABORT ": "exab"}

// tell adds what a span tells about its operation.
func tell(e hx.Ev, s go2sky.ReportedSpan, short func(string) string) {
	tags := map[string][]string{}
	var all, logs []string
	for _, t := range s.Tags() {
		tags[t.Key] = append(tags[t.Key], t.Value)
		all = append(all, short(t.Value))
	}
	for _, l := range s.Logs() {
		for _, d := range l.Data {
			logs = append(logs, d.Key, d.Value)
		}
	}
	tag := func(t go2sky.Tag) string { return strings.Join(tags[string(t)], ",") }
	text := short(strings.Join(logs, "\n"))
	set := map[string]bool{}
	for _, p := range pieceRe.FindAllString(s.OperationName()+"\n"+s.Peer()+"\n"+strings.Join(all, "\n")+"\n"+text, -1) {
		set[p] = true
	}
	said, lib := []string{}, []string{}
	for p := range set {
		said = append(said, p)
	}
	for t, n := range libErrs {
		if strings.Contains(text, t) {
			lib = append(lib, n)
		}
	}
	sort.Strings(said)
	sort.Strings(lib)
	stmt := short(tag(go2sky.TagDBStatement))
	keys := []string{}
	for _, m := range longKeyRe.FindAllString(stmt, -1) {
		keys = append(keys, m)
	}
	e["said"], e["lib"], e["text"] = said, lib, strings.TrimSpace(text) != ""
	e["method"], e["url"] = tag(go2sky.TagHTTPMethod), tag(go2sky.TagURL)
	e["db"], e["stmt"], e["stkeys"] = []string{tag(go2sky.TagDBType), tag(go2sky.TagDBInstance)}, strings.ToLower(stmt), keys
	e["layer"] = strings.ToLower(s.SpanLayer().String())
}

func (c recorder) Send(spans []go2sky.ReportedSpan) {
	r := c.r
	for _, s := range spans {
		r.mu.Lock()
		e := hx.Ev{"e": "span", "seg": num(r.seg, s.Context().SegmentID), "id": int(s.Context().SpanID), "par": int(s.Context().ParentSpanID),
			"tr": num(r.tr, s.Context().TraceID), "name": s.OperationName(), "peer": s.Peer(), "err": s.IsError(), "st": 0, "u": 0,
			"ref": []int{-1, -1}, "t": int(s.EndTime() - r.x.T0.UnixMilli()), "keys": []int{}}
		switch s.SpanType() {
		case v3.SpanType_Entry:
			e["ty"] = "entry"
		case v3.SpanType_Exit:
			e["ty"] = "exit"
		default:
			e["ty"] = "local"
		}
		if f := s.Refs(); len(f) == 1 {
			e["ref"] = []int{num(r.seg, f[0].ParentSegmentID), int(f[0].ParentSpanID)}
		} else if len(f) > 1 {
			e["ref"] = []int{-2, -2}
		}
		r.mu.Unlock()
		tell(e, s, r.s.short)
		for _, t := range s.Tags() {
			switch go2sky.Tag(t.Key) {
			case go2sky.TagStatusCode:
				n, err := strconv.Atoi(t.Value)
				if err != nil {
					n = -1
				}
				e["st"] = n
			case go2sky.TagURL:
				if m := pathRe.FindStringSubmatch(t.Value); m != nil {
					e["u"], _ = strconv.Atoi(m[1])
				}
			case go2sky.TagDBStatement:
				ks := []int{}
				for _, m := range keyRe.FindAllStringSubmatch(t.Value, -1) {
					n, _ := strconv.Atoi(m[1])
					ks = append(ks, n)
				}
				e["keys"] = ks
			}
		}
		r.x.Log(e)
	}
}

func (r *run) tracer(mode string) *go2sky.Tracer {
	var rep go2sky.Reporter = recorder{r}
	if r.s.Noop {
		var err error
		if rep, err = skywalking.NewGrpcOrNoopReporter(&skywalking.Conf{ServiceName: "x"}); err != nil {
			panic(err)
		}
	}
	switch mode {
	case "nil":
		return nil
	case "off":
		t, err := go2sky.NewTracer("svc")
		if err != nil {
			panic(err)
		}
		return t
	case "never":
		t, err := go2sky.NewTracer("svc", go2sky.WithReporter(rep), go2sky.WithInstance("i"), go2sky.WithCustomSampler(go2sky.NewConstSampler(false)))
		if err != nil {
			panic(err)
		}
		return t
	}
	t, err := skywalking.NewTracer(&skywalking.Conf{ServiceNamespace: "ns", ServiceName: "svc", ServiceInstance: "i"}, rep)
	if err != nil {
		panic(err)
	}
	return t
}

// ---------------------------------------------------------------- server

func (r *run) setup() {
	s := r.s
	var mo []swrouting.Option
	var co []swhttp.Option
	var ro []swredis.Option
	p := &s.Par.Opt
	if p.Sle {
		mo = append(mo, swrouting.WithLogError())
	}
	if p.Slb {
		mo = append(mo, swrouting.WithLog4xxBody())
	}
	if p.Cle {
		co = append(co, swhttp.WithLogError())
	}
	if p.Clb {
		co = append(co, swhttp.WithLog4xxBody())
	}
	if p.Rle {
		ro = append(ro, swredis.WithLogError())
	}
	if p.Rar {
		ro = append(ro, swredis.WithArgsReport())
	}
	if s.Par.Addr {
		ro = append(ro, swredis.WithAddr("redis.test:6379"))
	}
	if n, err := strconv.Atoi(p.Db); err == nil {
		ro = append(ro, swredis.WithDb(n))
	}
	r.rnd.Shuffle(len(mo), func(i, j int) { mo[i], mo[j] = mo[j], mo[i] })
	r.rnd.Shuffle(len(co), func(i, j int) { co[i], co[j] = co[j], co[i] })
	r.rnd.Shuffle(len(ro), func(i, j int) { ro[i], ro[j] = ro[j], ro[i] })
	r.mw = swrouting.NewMiddleware(r.tracer(s.Par.Srv), mo...)
	r.cli = swhttp.NewClientSpanHelper(r.tracer(s.Par.Cli), co...)
	hook := swredis.NewHook(r.tracer(s.Par.Red), ro...)
	opt := func(dial func(context.Context, string, string) (net.Conn, error)) *redis.Options {
		return &redis.Options{Addr: "redis.test:6379", Dialer: dial, MaxRetries: -1, PoolSize: 200, IdleCheckFrequency: -1}
	}
	r.up = redis.NewClient(opt(func(context.Context, string, string) (net.Conn, error) {
		a, b := net.Pipe()
		go r.redisServe(b)
		return a, nil
	}))
	r.down = redis.NewClient(opt(func(context.Context, string, string) (net.Conn, error) { return nil, errors.New("no connection") }))
	for _, c := range []*redis.Client{r.up, r.down} {
		c.AddHook(logHook{r})
		c.AddHook(hook)
		r.closed = append(r.closed, c)
	}

	r.router = routing.New()
	r.none = routing.New()
	// the operation is over when the handlers after the middleware are done
	guard := func(c *routing.Context) error {
		k := r.of(c.RequestCtx)
		defer r.worked(k)
		return c.Next()
	}
	r.none.Use(r.mw, guard)
	for i := range s.Par.Ops {
		o := i + 1
		p := &s.Par.Ops[i]
		if p.K != "srv" {
			continue
		}
		if p.silent() {
			if p.Chain[1].St == 405 { // a route, of another method
				r.none.Put(p.Path, func(*routing.Context) error { return nil })
			}
			continue
		}
		var hs []routing.Handler
		for j := range p.Chain {
			if p.Chain[j].A == "mw" {
				hs = append(hs, r.mw, guard)
			} else {
				hs = append(hs, r.handler(o, j+1, &p.Chain[j]))
			}
		}
		r.router.To("GET,POST", p.Path, hs...)
	}
}

// silent tells that the chain is the router's own for requests without a route.
func (p *op) silent() bool {
	n := 0
	for _, h := range p.Chain {
		if h.Sl && h.A != "mw" {
			n++
		}
	}
	return n > 0
}

func (r *run) of(c *fasthttp.RequestCtx) *call {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.calls[c]
}

func (r *run) worked(k *call) {
	r.mu.Lock()
	w := k.work
	k.work = true
	r.mu.Unlock()
	if !w {
		r.log("work", k.o)
	}
}

func (r *run) handler(o, j int, h *handler) routing.Handler {
	return func(c *routing.Context) error {
		k := r.of(c.RequestCtx)
		if k.o != o {
			k.calls = append(k.calls, 0) // the wrong request
		}
		k.calls = append(k.calls, j)
		r.delay()
		resp := func() {
			if h.St == 0 {
				return
			}
			c.Response.SetStatusCode(h.St)
			if r.s.Stream {
				c.Response.SetBodyStream(strings.NewReader(r.s.long(h.B)), -1)
			} else {
				c.Response.SetBodyString(r.s.long(h.B))
			}
		}
		r.nested(o, j, swrouting.GetSwContext(c))
		switch h.A {
		case "ok":
			resp()
		case "err":
			if h.St == 0 {
				return errors.New(r.s.long(h.B))
			}
			return routing.NewHTTPError(h.St, r.s.long(h.B))
		case "abort":
			resp()
			c.Abort()
		case "panic":
			panic("handler")
		case "next", "swallow":
			resp()
			err := c.Next()
			k.calls = append(k.calls, -j)
			r.delay()
			if h.A == "next" {
				return err
			}
		}
		return nil
	}
}

// serve handles the request of operation o.
func (r *run) serve(o int, ctx *fasthttp.RequestCtx, seen any) {
	p := &r.s.Par.Ops[o-1]
	k := &call{o: o, calls: []int{}}
	r.mu.Lock()
	r.calls[ctx] = k
	r.mu.Unlock()
	r.log("begin", o, "seen", seen)
	rt := r.router
	if p.silent() {
		rt = r.none
	}
	pan := false
	func() {
		defer func() {
			if recover() != nil {
				pan = true
				ctx.Response.Reset()
				ctx.Response.SetStatusCode(500)
				ctx.Response.SetBodyString("panic")
			}
		}()
		rt.HandleRequest(ctx)
	}()
	r.worked(k)
	r.log("out", o, "r", map[string]any{"calls": k.calls, "pan": pan, "st": ctx.Response.StatusCode(), "body": r.s.short(string(ctx.Response.Body()))})
}

func sw8(kind string) string {
	b := func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
	switch kind {
	case "ext":
		return strings.Join([]string{"1", b("ext-trace"), b("ext-seg"), "3", b("ext-svc"), b("ext-inst"), b("/ext"), b("ext.test:80")}, "-")
	case "bad":
		return "1-???-nonsense"
	}
	return ""
}

func fill(req *fasthttp.Request, m, host, path, body string) {
	req.Header.SetMethod(m)
	req.SetRequestURI("http://" + host + path + "?q=1")
	req.Header.SetUserAgent("driver")
	req.Header.Set("X-App", "a b")
	if body != "" {
		req.SetBodyString(body)
	}
}

func (r *run) srvOp(o int) {
	p := &r.s.Par.Ops[o-1]
	req := &fasthttp.Request{}
	fill(req, p.M, "here.test", p.Path, p.Rb)
	if h := sw8(p.Sw8); h != "" {
		req.Header.Set("sw8", h)
	}
	ctx := &fasthttp.RequestCtx{}
	ctx.Init(req, nil, nil)
	r.serve(o, ctx, 0)
}

func headers(req *fasthttp.Request) map[string]string {
	h := map[string]string{}
	req.Header.VisitAll(func(k, v []byte) { h[string(k)] += "|" + string(v) })
	return h
}

// wireServe is the other end of a connection of client request o.
func (r *run) wireServe(o int, c net.Conn) {
	defer c.Close()
	p := &r.s.Par.Ops[o-1]
	br, bw := bufio.NewReader(c), bufio.NewWriter(c)
	for {
		req := &fasthttp.Request{}
		if req.Read(br) != nil {
			return
		}
		r.delay()
		// what it would be without tracing
		ref, back := &fasthttp.Request{}, &fasthttp.Request{}
		fill(ref, p.M, p.Host, p.Path, p.Rb)
		var buf bytes.Buffer
		w := bufio.NewWriter(&buf)
		ref.Write(w)
		w.Flush()
		if err := back.Read(bufio.NewReader(&buf)); err != nil {
			panic(err)
		}
		got, want := headers(req), headers(back)
		extra, lost := []string{}, []string{}
		for k, v := range got {
			if want[k] != v && !strings.HasPrefix(strings.ToLower(k), "sw8") {
				extra = append(extra, k)
			}
		}
		for k, v := range want {
			if got[k] != v {
				lost = append(lost, k)
			}
		}
		sort.Strings(extra)
		sort.Strings(lost)
		path := string(req.URI().Path())
		if q := string(req.URI().QueryString()); q != "q=1" {
			path += "?" + q
		}
		ctx := &fasthttp.RequestCtx{}
		ctx.Init(req, nil, nil)
		r.serve(p.Srv, ctx, map[string]any{"m": string(req.Header.Method()), "path": path, "body": string(req.Body()), "extra": extra, "lost": lost})
		r.delay()
		if ctx.Response.Write(bw) != nil || bw.Flush() != nil {
			return
		}
	}
}

func (r *run) cliOp(o int, ctx context.Context) {
	p := &r.s.Par.Ops[o-1]
	if p.NilCtx {
		ctx = nil
	}
	req, res := &fasthttp.Request{}, &fasthttp.Response{}
	fill(req, p.M, p.Host, p.Path, p.Rb)
	hc := &fasthttp.HostClient{Addr: p.Host + ":80", Dial: func(string) (net.Conn, error) {
		if p.Srv == 0 {
			return nil, errors.New("no connection")
		}
		a, b := net.Pipe()
		go r.wireServe(o, b)
		return a, nil
	}}
	r.mu.Lock()
	r.hosts = append(r.hosts, hc)
	r.mu.Unlock()
	r.log("begin", o, "seen", 0)
	r.delay()
	span, _ := r.cli.CreateSpan(ctx, req)
	r.delay()
	err := hc.Do(req, res)
	r.delay()
	r.log("work", o)
	if err != nil {
		r.cli.EndSpanError(span, err)
		r.log("out", o, "r", map[string]any{"err": true, "st": 0, "body": ""})
		return
	}
	r.cli.EndSpan(span, res)
	r.log("out", o, "r", map[string]any{"err": false, "st": res.StatusCode(), "body": r.s.short(string(res.Body()))})
}

// ---------------------------------------------------------------- Redis

type logHook struct{ r *run }

func (h logHook) opOf(cmds ...redis.Cmder) int {
	for _, c := range cmds {
		if a := c.Args(); len(a) > 1 {
			if m := keyRe.FindStringSubmatch(fmt.Sprint(a[1])); m != nil {
				n, _ := strconv.Atoi(m[1])
				return n
			}
		}
	}
	return 0
}

func (h logHook) BeforeProcess(ctx context.Context, cmd redis.Cmder) (context.Context, error) {
	return ctx, nil
}
func (h logHook) AfterProcess(ctx context.Context, cmd redis.Cmder) error {
	h.r.log("work", h.opOf(cmd))
	return nil
}
func (h logHook) BeforeProcessPipeline(ctx context.Context, cmds []redis.Cmder) (context.Context, error) {
	return ctx, nil
}
func (h logHook) AfterProcessPipeline(ctx context.Context, cmds []redis.Cmder) error {
	h.r.log("work", h.opOf(cmds...))
	return nil
}

func readCmd(br *bufio.Reader) ([]string, error) {
	ln, err := br.ReadString('\n')
	if err != nil {
		return nil, err
	}
	n, _ := strconv.Atoi(strings.TrimSpace(ln[1:]))
	var a []string
	for i := 0; i < n; i++ {
		if ln, err = br.ReadString('\n'); err != nil {
			return nil, err
		}
		k, _ := strconv.Atoi(strings.TrimSpace(ln[1:]))
		b := make([]byte, k+2)
		if _, err = io.ReadFull(br, b); err != nil {
			return nil, err
		}
		a = append(a, string(b[:k]))
	}
	return a, nil
}

func (r *run) redisServe(c net.Conn) {
	defer c.Close()
	br := bufio.NewReader(c)
	out := make(chan string, 1000) // net.Pipe has no buffer
	defer close(out)
	go func() {
		for s := range out {
			if _, err := io.WriteString(c, s); err != nil {
				c.Close()
			}
		}
	}()
	var queue []string
	multi, end := false, ""
	for {
		a, err := readCmd(br)
		if err != nil {
			return
		}
		switch strings.ToLower(a[0]) {
		case "multi":
			multi, queue, end = true, nil, ""
			out <- "+OK\r\n"
			continue
		case "exec":
			multi = false
			switch end {
			case "null":
				out <- "*-1\r\n"
				continue
			case "exab":
				out <- "-EXECABORT Transaction discarded because of previous errors.\r\n"
				continue
			}
			out <- fmt.Sprintf("*%d\r\n%s", len(queue), strings.Join(queue, ""))
			continue
		}
		var o, i int
		if len(a) > 1 {
			fmt.Sscanf(a[1], "k%d_%d", &o, &i)
		}
		if o == 0 || o > len(r.s.Par.Ops) || i < 1 || i > len(r.s.Par.Ops[o-1].Cmds) || strings.ToLower(a[0]) != r.s.Par.Ops[o-1].Cmds[i-1].N {
			out <- "-ERR unknown command\r\n"
			continue
		}
		p := &r.s.Par.Ops[o-1]
		if p.Conn == "drop" {
			return
		}
		if multi && (p.Conn == "null" || p.Conn == "exab") {
			if end = p.Conn; end == "exab" && i%2 == 1 {
				out <- "-OOM command not allowed\r\n"
			} else {
				out <- "+QUEUED\r\n"
			}
			continue
		}
		r.mu.Lock()
		r.exec[o] = append(r.exec[o], i)
		r.mu.Unlock()
		r.delay()
		var rep string
		switch {
		case p.Cmds[i-1].R == "nil":
			rep = "$-1\r\n"
		case p.Cmds[i-1].R == "err":
			rep = "-" + r.s.errText(o, i) + "\r\n"
		case p.Cmds[i-1].R == "txf":
			rep = "-redis: transaction failed\r\n"
		case p.Cmds[i-1].N == "incr":
			rep = fmt.Sprintf(":%d\r\n", o*100+i)
		default:
			v := fmt.Sprintf("v%d_%d", o, i)
			rep = fmt.Sprintf("$%d\r\n%s\r\n", len(v), v)
		}
		if multi {
			queue = append(queue, rep)
			out <- "+QUEUED\r\n"
		} else {
			out <- rep
		}
	}
}

var errRe = regexp.MustCompile(`e\d+_\d+(x+\.)?$`)

// long is a text made longer, short takes that back: a piece of it that was cut is not the text any more.
func (s *script) long(t string) string {
	if s.Pad == 0 || t == "" {
		return t
	}
	return t + strings.Repeat("x", s.Pad) + "."
}

func (s *script) short(t string) string {
	if s.Pad == 0 {
		return t
	}
	return strings.ReplaceAll(t, strings.Repeat("x", s.Pad)+".", "")
}

// errText is the error the server reports for a command.
func (s *script) errText(o, i int) string {
	kinds := []string{"ERR ", "WRONGTYPE ", "READONLY ", "LOADING ", "NOSCRIPT ", "OOM ", "redis: nil ", "", "BUSY ", "NOAUTH ", "CLUSTERDOWN "}
	return kinds[(int(s.Seed%1000)+o*3+i)%len(kinds)] + s.long(fmt.Sprintf("e%d_%d", o, i))
}

func classify(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == redis.Nil:
		return "nil"
	case err == redis.TxFailedErr:
		return "txf"
	case strings.HasPrefix(err.Error(), "EXECABORT "):
		return "exab"
	case errRe.MatchString(err.Error()):
		return "err"
	}
	return "fail"
}

func (r *run) redOp(o int, ctx context.Context) {
	p := &r.s.Par.Ops[o-1]
	cl := r.up
	if p.Conn == "down" {
		cl = r.down
	}
	var cmds []*redis.Cmd
	for i, c := range p.Cmds {
		n := c.N
		if r.s.Upper {
			n = strings.ToUpper(n)
		}
		cmds = append(cmds, redis.NewCmd(n, r.s.long(fmt.Sprintf("k%d_%d", o, i+1))))
	}
	r.log("begin", o, "seen", 0)
	r.delay()
	var err error
	switch p.K {
	case "cmd":
		err = cl.ProcessContext(ctx, cmds[0])
	default:
		pl := cl.WithContext(ctx).Pipeline()
		if p.K == "tx" {
			pl = cl.WithContext(ctx).TxPipeline()
		}
		for _, c := range cmds {
			pl.Process(c)
		}
		_, err = pl.Exec()
	}
	res := []string{}
	for i, c := range cmds {
		k := classify(c.Err())
		switch {
		case k == "ok" && p.Cmds[i].N == "incr" && c.Val() != int64(o*100+i+1),
			k == "ok" && p.Cmds[i].N != "incr" && c.Val() != fmt.Sprintf("v%d_%d", o, i+1),
			k == "err" && c.Err().Error() != r.s.errText(o, i+1):
			k = "wrong"
		}
		res = append(res, k)
	}
	r.mu.Lock()
	x := append([]int{}, r.exec[o]...)
	r.mu.Unlock()
	r.log("out", o, "r", map[string]any{"res": res, "err": classify(err)}, "x", x)
}

// ---------------------------------------------------------------- driver

func (r *run) do(o int, ctx context.Context) {
	defer func() {
		if e := recover(); e != nil {
			r.log("panic", o, "m", fmt.Sprint(e))
		}
	}()
	switch r.s.Par.Ops[o-1].K {
	case "srv":
		r.srvOp(o)
	case "cli":
		r.cliOp(o, ctx)
	default:
		r.redOp(o, ctx)
	}
}

func (r *run) nested(s, h int, ctx context.Context) {
	var wg sync.WaitGroup
	for i := range r.s.Par.Ops {
		p := &r.s.Par.Ops[i]
		if p.By != s || p.At != h {
			continue
		}
		if r.s.Conc {
			wg.Add(1)
			go func() { defer wg.Done(); r.do(i+1, ctx) }()
		} else {
			r.do(i+1, ctx)
		}
	}
	wg.Wait()
}

func one(t *testing.T, s *script) (*hx.X, bool) {
	return hx.Run(t, func(x *hx.X) {
		r := &run{x: x, s: s, rnd: rand.New(rand.NewSource(s.Seed)), seg: map[string]int{"ext-seg": 0}, tr: map[string]int{"ext-trace": 0},
			exec: map[int][]int{}, calls: map[*fasthttp.RequestCtx]*call{}}
		r.setup()
		n := 1
		for _, k := range s.Threads {
			n = max(n, k+1)
		}
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				j := 0
				for i := range s.Par.Ops {
					if s.Par.Ops[i].By != 0 {
						continue
					}
					if s.Threads[j%len(s.Threads)] == k {
						r.delay()
						r.do(i+1, context.Background())
					}
					j++
				}
			}()
		}
		wg.Wait()
		synctest.Wait()
		for _, c := range r.closed {
			c.Close()
		}
		for _, h := range r.hosts {
			h.CloseIdleConnections()
		}
		time.Sleep(time.Minute)
		synctest.Wait()
		x.Log(hx.Ev{"e": "quiet"})
	})
}

func TestSpan(t *testing.T) {
	var in struct{ Scripts []json_ }
	hx.In(t, &in)
	var ts hx.Traces
	for i := range in.Scripts {
		s, raw := in.Scripts[i].decode()
		if hx.Enough() {
			break
		}
		x, _ := one(t, s)
		if x.Fail != "" {
			x.Log(hx.Ev{"e": "broken", "m": x.Fail})
		}
		ts.Add(map[string]any{"par": raw, "ev": x.Events()})
	}
	hx.OutTraces(t, &ts)
}

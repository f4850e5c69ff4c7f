package report

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	"github.com/chanjarster/gears/skywalking"
	"google.golang.org/grpc"
	conf3 "skywalking.apache.org/repo/goapi/collect/agent/configuration/v3"
	common3 "skywalking.apache.org/repo/goapi/collect/common/v3"
	agent3 "skywalking.apache.org/repo/goapi/collect/language/agent/v3"
	mgmt3 "skywalking.apache.org/repo/goapi/collect/management/v3"
)

type conf struct {
	Conf bool   `json:"conf"`
	Addr int    `json:"addr"`
	Ns   string `json:"ns"`
	Svc  string `json:"svc"`
	Inst string `json:"inst"`
}
type op struct {
	O  string `json:"o"`
	I  int    `json:"i"`
	N  int    `json:"n"`
	Op string `json:"op"`
}
type script struct {
	Par  []conf `json:"par"`
	Acts []op   `json:"acts"`
	Addr string `json:"addr"`
}
type trace struct {
	Par []conf `json:"par"`
	Ev  []any  `json:"ev"`
}

type world struct {
	mu           sync.Mutex
	ev           []any
	hello, heard int
	sick         bool // something did not arrive in time; do not wait that long again
}

func (w *world) log(e map[string]any, f func()) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.ev = append(w.ev, e)
	if f != nil {
		f()
	}
}

// wait until what is expected has come; whether that was to be expected is not judged here
func (w *world) wait(f func() bool) {
	long := 15 * time.Second
	w.mu.Lock()
	if w.sick {
		long = 50 * time.Millisecond
	}
	w.mu.Unlock()
	for end := time.Now().Add(long); time.Now().Before(end); time.Sleep(200 * time.Microsecond) {
		w.mu.Lock()
		ok := f()
		w.mu.Unlock()
		if ok {
			return
		}
	}
	w.mu.Lock()
	w.sick = true
	w.mu.Unlock()
}

type server struct {
	agent3.UnimplementedTraceSegmentReportServiceServer
	mgmt3.UnimplementedManagementServiceServer
	conf3.UnimplementedConfigurationDiscoveryServiceServer
	id   int
	w    *world
	port string
	g    *grpc.Server
}

func (s *server) Collect(st agent3.TraceSegmentReportService_CollectServer) error {
	for {
		m, err := st.Recv()
		if err == io.EOF {
			return st.SendAndClose(&common3.Commands{})
		}
		if err != nil {
			return err
		}
		sp := m.GetSpans()
		sort.Slice(sp, func(i, j int) bool { return sp[i].SpanId < sp[j].SpanId })
		ops := []string{}
		for _, x := range sp {
			ops = append(ops, x.OperationName)
		}
		s.w.log(map[string]any{"o": "heard", "srv": s.id, "name": m.GetService(), "inst": m.GetServiceInstance(), "ops": ops}, func() { s.w.heard++ })
	}
}

// told that there is somebody
func (s *server) greet(name, inst string) {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	s.w.hello++
	s.w.ev = append(s.w.ev, map[string]any{"o": "hello", "srv": s.id, "name": name, "inst": inst})
}

func (s *server) ReportInstanceProperties(_ context.Context, p *mgmt3.InstanceProperties) (*common3.Commands, error) {
	s.greet(p.GetService(), p.GetServiceInstance())
	return &common3.Commands{}, nil
}

func (s *server) KeepAlive(_ context.Context, p *mgmt3.InstancePingPkg) (*common3.Commands, error) {
	return &common3.Commands{}, nil
}

func (s *server) FetchConfigurations(context.Context, *conf3.ConfigurationSyncRequest) (*common3.Commands, error) {
	return &common3.Commands{}, nil
}

func serve(id int, w *world, addr string) *server {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		if id > 2 {
			return nil
		}
		panic(err)
	}
	_, port, _ := net.SplitHostPort(l.Addr().String())
	s := &server{id: id, w: w, port: port, g: grpc.NewServer()}
	agent3.RegisterTraceSegmentReportServiceServer(s.g, s)
	mgmt3.RegisterManagementServiceServer(s.g, s)
	conf3.RegisterConfigurationDiscoveryServiceServer(s.g, s)
	go s.g.Serve(l)
	return s
}

type seg struct {
	i     int
	ctx   []context.Context
	spans []go2sky.Span
}

// the time something takes that may not take long, whoever answers or does not
func timely(what string, f func()) string {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				done <- fmt.Sprintf("%s: panic: %v", what, e)
			}
		}()
		f()
		done <- ""
	}()
	select {
	case r := <-done:
		return r
	case <-time.After(30 * time.Second):
		return what + " does not return"
	}
}

func run(s script, dead string) trace {
	w := &world{}
	srv := map[int]*server{1: serve(1, w, "127.0.0.1:0"), 2: serve(2, w, "127.0.0.1:0")}
	if x := serve(3, w, "127.0.0.1:11800"); x != nil { // where servers are by default
		srv[3] = x
	}
	tracers := map[int]*go2sky.Tracer{}
	reps := map[int]go2sky.Reporter{}
	closed := map[int]bool{}
	segs := []*seg{}
	hellos, heards := 0, 0
	tells := func(i int) bool { c := s.Par[i-1]; return c.Conf && (c.Addr == 1 || c.Addr == 2) }
	settle := func() { w.wait(func() bool { return w.hello >= hellos && w.heard >= heards }) }
	bad := ""
	for _, a := range s.Acts {
		w.log(map[string]any{"o": a.O, "i": a.I, "n": a.N, "op": a.Op}, nil)
		bad = timely(a.O, func() {
			switch a.O {
			case "make":
				c := s.Par[a.I-1]
				k := &skywalking.Conf{ServiceName: c.Svc, ServiceInstance: c.Inst, ServiceNamespace: c.Ns}
				switch c.Addr {
				case 1, 2:
					k.ServerAddr = s.Addr + ":" + srv[c.Addr].port
				case 9:
					k.ServerAddr = dead
				}
				g := k
				if !c.Conf {
					g = nil
				}
				rep, err := skywalking.NewGrpcOrNoopReporter(g)
				if err != nil {
					panic(err)
				}
				t, err := skywalking.NewTracer(k, rep)
				if err != nil {
					panic(err)
				}
				tracers[a.I], reps[a.I] = t, rep
			case "start":
				sp, ctx, err := tracers[a.I].CreateLocalSpan(context.Background(), go2sky.WithOperationName(a.Op))
				if err != nil {
					panic(err)
				}
				segs = append(segs, &seg{i: a.I, ctx: []context.Context{ctx}, spans: []go2sky.Span{sp}})
			case "inner":
				g := segs[a.N-1]
				sp, ctx, err := tracers[g.i].CreateLocalSpan(g.ctx[len(g.ctx)-1], go2sky.WithOperationName(a.Op))
				if err != nil {
					panic(err)
				}
				g.ctx, g.spans = append(g.ctx, ctx), append(g.spans, sp)
			case "fin":
				g := segs[a.N-1]
				n := len(g.spans) - 1
				g.spans[n].End()
				g.spans, g.ctx = g.spans[:n], g.ctx[:n]
				if n == 0 && tells(g.i) && !closed[g.i] {
					heards++
				}
			case "close":
				reps[a.I].Close()
				closed[a.I] = true
			}
		})
		if bad != "" {
			w.log(map[string]any{"o": bad}, nil)
			break
		}
		if a.O == "make" && tells(a.I) {
			hellos++
		}
		settle()
	}
	if bad == "" {
		time.Sleep(3 * time.Millisecond) // anything that should not come
		w.log(map[string]any{"o": "quiet"}, nil)
	}
	w.mu.Lock()
	out := append([]any{}, w.ev...)
	w.mu.Unlock()
	for _, r := range reps {
		func() {
			defer func() { recover() }()
			r.Close()
		}()
	}
	for _, x := range srv {
		x.g.Stop()
	}
	return trace{Par: s.Par, Ev: out}
}

func TestReport(t *testing.T) {
	var in struct{ Scripts []script }
	b, err := os.ReadFile(os.Getenv("VH_IN"))
	if err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(b, &in); err != nil {
		t.Fatal(err)
	}
	for _, e := range os.Environ() { // the environment has no say here
		if k, _, _ := strings.Cut(e, "="); strings.HasPrefix(k, "SW_") || strings.Contains(strings.ToLower(k), "proxy") {
			os.Unsetenv(k)
		}
	}
	// an address where nobody answers, nor ever will
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		t.Fatal(err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		t.Fatal(err)
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		t.Fatal(err)
	}
	dead := fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	out := []trace{}
	for _, s := range in.Scripts {
		out = append(out, run(s, dead))
	}
	b, err = json.Marshal(map[string]any{"traces": out, "execs": len(out)})
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(os.Getenv("VH_OUT"), b, 0o644); err != nil {
		t.Fatal(err)
	}
	os.Exit(0)
}

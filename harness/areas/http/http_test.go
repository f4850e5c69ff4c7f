package http

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/chanjarster/gears/confs"
	"github.com/valyala/fasthttp"
)

type conf struct {
	Cap   int `json:"cap"`
	Wait  int `json:"wait"`
	Read  int `json:"read"`
	Write int `json:"write"`
	Dur   int `json:"dur"`
	Idle  int `json:"idle"`
}

type par struct {
	Tls  bool `json:"tls"`
	Conf conf `json:"conf"`
	Cust struct {
		F  string `json:"f"`
		To conf   `json:"to"`
	} `json:"cust"`
}

type op struct {
	O   string `json:"o"`
	T   string `json:"t"`
	H   int    `json:"h"`
	Big bool   `json:"big"`
	D   int    `json:"d"`
}

type script struct {
	Par  par  `json:"par"`
	Acts []op `json:"acts"`
	Unit int  `json:"unit"` // microseconds
	Name bool `json:"name"` // the configuration also says something about trust
}

type sentEv struct {
	T     string `json:"t"`
	C     int    `json:"c"`
	Close bool   `json:"close"`
}
type doneEv struct {
	T string `json:"t"`
	R string `json:"r"`
}
type ev struct {
	O    string   `json:"o"`
	T    string   `json:"t"`
	H    int      `json:"h"`
	Big  bool     `json:"big"`
	D    int      `json:"d"`
	Sent []sentEv `json:"sent"`
	Done []doneEv `json:"done"`
	Gone []int    `json:"gone"`
	New  []int    `json:"new"`
}

type trace struct {
	Par par   `json:"par"`
	Ev  []any `json:"ev"`
}

var cert = func() tls.Certificate {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "x"}, NotBefore: time.Unix(0, 0), NotAfter: time.Now().Add(time.Hour)}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
}()

var bigBody = strings.Repeat("x", 100000)

// one request as the server has it
type req struct {
	conn  net.Conn
	drain chan bool // a big one: read it all
	read  chan bool // it has been read
}

type world struct {
	mu   sync.Mutex
	e    *ev
	n    int
	reqs map[string]*req
}

func (w *world) log(f func(e *ev)) {
	w.mu.Lock()
	f(w.e)
	w.mu.Unlock()
}

// seen is a connection whose closing by the client is observed
type seen struct {
	net.Conn
	f func()
	o sync.Once
}

func (s *seen) Close() error {
	s.o.Do(s.f)
	return s.Conn.Close()
}

func (w *world) dial(secure bool) (net.Conn, error) {
	a, b := net.Pipe()
	var id int
	w.log(func(e *ev) { w.n++; id = w.n; e.New = append(e.New, id) })
	go w.serve(id, b, secure)
	return &seen{Conn: a, f: func() { w.log(func(e *ev) { e.Gone = append(e.Gone, id) }) }}, nil
}

func (w *world) serve(id int, c net.Conn, secure bool) {
	if secure {
		c = tls.Server(c, &tls.Config{Certificates: []tls.Certificate{cert}, SessionTicketsDisabled: true})
	}
	defer c.Close()
	br := bufio.NewReader(c)
	for {
		line, err := br.ReadString('\n')
		if err != nil {
			return
		}
		t := strings.TrimPrefix(strings.Fields(line)[1], "/")
		n, last, huge := 0, false, false
		for {
			h, err := br.ReadString('\n')
			if err != nil {
				return
			}
			h = strings.TrimSpace(h)
			if h == "" {
				break
			}
			k, v, _ := strings.Cut(h, ":")
			k, v = strings.ToLower(k), strings.TrimSpace(v)
			switch k {
			case "content-length":
				n, _ = strconv.Atoi(v)
			case "connection":
				last = strings.EqualFold(v, "close")
			case "x-big":
				huge = true
			}
		}
		r := &req{conn: c, drain: make(chan bool), read: make(chan bool)}
		w.log(func(e *ev) {
			w.reqs[t] = r
			e.Sent = append(e.Sent, sentEv{t, id, last})
		})
		if huge {
			<-r.drain
		}
		if _, err := io.CopyN(io.Discard, br, int64(n)); err != nil {
			return
		}
		close(r.read)
	}
}

func d(unit, n int) time.Duration { return time.Duration(unit) * time.Duration(n) * time.Microsecond }

func run(s script) trace {
	w := &world{reqs: map[string]*req{}}
	p := s.Par
	u := s.Unit
	made := 0
	var given *fasthttp.Client
	fc := &confs.FastHttpClientConf{MaxConnsPerHost: p.Conf.Cap, MaxConnWaitTimeout: d(u, p.Conf.Wait), ReadTimeout: d(u, p.Conf.Read),
		WriteTimeout: d(u, p.Conf.Write), MaxConnDuration: d(u, p.Conf.Dur), MaxIdleConnDuration: d(u, p.Conf.Idle)}
	if p.Tls || s.Name {
		fc.SslTrustMode = "INSECURE"
	}
	var cu confs.FastHttpClientCustomizer
	if p.Cust.F != "none" {
		cu = func(hc *fasthttp.Client) {
			made++
			given = hc
			if p.Cust.F == "set" {
				to := p.Cust.To
				hc.MaxConnsPerHost, hc.MaxConnWaitTimeout, hc.ReadTimeout = to.Cap, d(u, to.Wait), d(u, to.Read)
				hc.WriteTimeout, hc.MaxConnDuration, hc.MaxIdleConnDuration = d(u, to.Write), d(u, to.Dur), d(u, to.Idle)
			}
		}
	}
	hc := confs.NewFastHttpClient(fc, cu)
	if given != nil && given != hc {
		made = -1
	}
	tr := trace{Par: p, Ev: []any{map[string]any{"o": "make", "cust": made}}}
	hc.Dial = func(addr string) (net.Conn, error) { return w.dial(p.Tls) }
	scheme := "http"
	if p.Tls {
		scheme = "https"
	}
	w.e = &ev{}
	out := map[string]bool{} // callers that have not got an answer
	for _, a := range s.Acts {
		// several may be waiting, and the specification leaves open who is next: steps that do not apply are left out
		w.mu.Lock()
		_, there := w.reqs[a.T]
		skip := a.O == "req" && out[a.T] || a.O == "ans" && (!out[a.T] || !there)
		w.mu.Unlock()
		if skip {
			continue
		}
		e := &ev{O: a.O, T: a.T, H: a.H, Big: a.Big, D: a.D, Sent: []sentEv{}, Done: []doneEv{}, Gone: []int{}, New: []int{}}
		w.log(func(*ev) { w.e = e })
		switch a.O {
		case "req":
			w.mu.Lock()
			out[a.T] = true
			delete(w.reqs, a.T)
			w.mu.Unlock()
			go func() {
				rq, rs := fasthttp.AcquireRequest(), fasthttp.AcquireResponse()
				rq.SetRequestURI(fmt.Sprintf("%s://h%d.test/%s", scheme, a.H, a.T))
				rq.Header.SetMethod("POST")
				body := "hello"
				if a.Big {
					body = bigBody
					rq.Header.Set("X-Big", "1")
				}
				rq.SetBodyString(body)
				err := hc.Do(rq, rs)
				r := "?"
				var ne net.Error
				switch {
				case err == nil && rs.StatusCode() == 200 && string(rs.Body()) == "answer "+a.T:
					r = "ok"
				case err == nil:
					r = fmt.Sprintf("answered %d %q", rs.StatusCode(), rs.Body())
				case err == fasthttp.ErrNoFreeConns:
					r = "busy"
				case err == fasthttp.ErrTimeout || errors.As(err, &ne) && ne.Timeout():
					r = "late"
				default:
					r = err.Error()
				}
				w.log(func(e *ev) { delete(out, a.T); e.Done = append(e.Done, doneEv{a.T, r}) })
			}()
		case "ans":
			w.mu.Lock()
			r := w.reqs[a.T]
			delete(w.reqs, a.T)
			w.mu.Unlock()
			if r != nil {
				select {
				case <-r.read:
				default:
					close(r.drain)
				}
				go func() {
					<-r.read
					b := "answer " + a.T
					fmt.Fprintf(r.conn, "HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n\r\n%s", len(b), b)
				}()
			}
		case "tick":
			time.Sleep(d(u, a.D))
		}
		synctest.Wait()
		w.log(func(*ev) { w.e = &ev{} })
		sort.Slice(e.Sent, func(i, j int) bool { return e.Sent[i].T < e.Sent[j].T })
		tr.Ev = append(tr.Ev, e)
	}
	return tr
}

func TestHttp(t *testing.T) {
	var in struct{ Scripts []script }
	b, err := os.ReadFile(os.Getenv("VH_IN"))
	if err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(b, &in); err != nil {
		t.Fatal(err)
	}
	// one bubble for all: the client keeps timers between requests
	synctest.Test(t, func(t *testing.T) {
		out := []trace{}
		for _, s := range in.Scripts {
			out = append(out, run(s))
		}
		b, err := json.Marshal(map[string]any{"traces": out, "execs": len(out)})
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(os.Getenv("VH_OUT"), b, 0o644); err != nil {
			panic(err)
		}
		os.Exit(0) // what clients and servers of the scripts still do does not matter
	})
}

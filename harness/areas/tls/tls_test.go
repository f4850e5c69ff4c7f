package tls

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/chanjarster/gears/confs"
	"github.com/valyala/fasthttp"
	"github.com/valyala/fasthttp/fasthttputil"
	"verif/hx"
)

type client struct {
	Mode  string     `json:"mode"`
	Files [][]string `json:"files"`
	Cert  string     `json:"cert"`
}

type srv struct {
	Anchor string `json:"anchor"`
	Host   string `json:"host"`
	Time   string `json:"time"`
	Want   string `json:"want"`
	Via    bool   `json:"via"`
}

type script struct {
	Par struct {
		C []client `json:"c"`
		S []srv    `json:"s"`
	}
	Ops   [][2]int // client, server
	Conc  bool
	Keep  bool // servers keep connections open
	V12   bool // no TLS 1.3
	Child bool // clients may end the process
}

type authority struct {
	cert *x509.Certificate
	der  []byte
	key  *ecdsa.PrivateKey
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

var serial int64

func issue(by *authority, t *x509.Certificate) *authority {
	serial++
	k := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	t.SerialNumber = big.NewInt(serial)
	if t.NotAfter.IsZero() {
		t.NotBefore, t.NotAfter = time.Now().Add(-time.Hour), time.Now().Add(time.Hour)
	}
	p, pk := t, k
	if by != nil {
		p, pk = by.cert, by.key
	}
	d := must(x509.CreateCertificate(rand.Reader, t, p, &k.PublicKey, pk))
	return &authority{must(x509.ParseCertificate(d)), d, k}
}

func ca(by *authority, name string) *authority {
	return issue(by, &x509.Certificate{Subject: pkix.Name{CommonName: name}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign})
}

func pemOf(as ...*authority) []byte {
	var b []byte
	for _, a := range as {
		b = append(b, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: a.der})...)
	}
	return b
}

type world struct {
	dir   string
	cas   map[string]*authority
	inter *authority
	certs map[string]*tls.Certificate // server certificates
	who   map[string]string           // serial of a client certificate: its name
	cli   map[string][2]string
	poolA *x509.CertPool
	mu    sync.Mutex
}

func newWorld(dir string) *world {
	w := &world{dir: dir, cas: map[string]*authority{}, certs: map[string]*tls.Certificate{}, who: map[string]string{}, cli: map[string][2]string{}}
	for _, n := range []string{"os", "c1", "c2", "other", "A", "B"} {
		w.cas[n] = ca(nil, n)
	}
	w.inter = ca(w.cas["c1"], "c1i")
	w.cas["self"] = issue(nil, &x509.Certificate{Subject: pkix.Name{CommonName: "self"}, DNSNames: []string{"right.test"}, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}})
	os.WriteFile(filepath.Join(dir, "os.pem"), pemOf(w.cas["os"]), 0o644)
	os.Setenv("SSL_CERT_FILE", filepath.Join(dir, "os.pem"))
	os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "none"))
	os.WriteFile(filepath.Join(dir, "junk.pem"), []byte("no certificate\n"), 0o644)
	w.poolA = x509.NewCertPool()
	w.poolA.AddCert(w.cas["A"].cert)
	ai := ca(w.cas["A"], "Ai")
	for n, by := range map[string]*authority{"cliA": w.cas["A"], "cliAi": ai, "cliB": w.cas["B"]} {
		a := issue(by, &x509.Certificate{Subject: pkix.Name{CommonName: n}, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}})
		w.who[a.cert.SerialNumber.String()] = n
		l := []*authority{a}
		if by == ai {
			l = append(l, ai)
		}
		c, k := filepath.Join(dir, n+".pem"), filepath.Join(dir, n+".key")
		os.WriteFile(c, pemOf(l...), 0o644)
		os.WriteFile(k, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: must(x509.MarshalECPrivateKey(a.key))}), 0o600)
		w.cli[n] = [2]string{c, k}
	}
	// one of them with an RSA key in PKCS #1
	rk := must(rsa.GenerateKey(rand.Reader, 2048))
	t := &x509.Certificate{SerialNumber: big.NewInt(77777), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), Subject: pkix.Name{CommonName: "cliB"}, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}}
	d := must(x509.CreateCertificate(rand.Reader, t, w.cas["B"].cert, &rk.PublicKey, w.cas["B"].key))
	w.who["77777"] = "cliB"
	os.WriteFile(w.cli["cliB"][0], pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: d}), 0o644)
	os.WriteFile(w.cli["cliB"][1], pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(rk)}), 0o600)
	w.cli["nokey"] = [2]string{w.cli["cliA"][0], ""}
	w.cli["nocert"] = [2]string{"", w.cli["cliA"][1]}
	w.cli["mismatch"] = [2]string{w.cli["cliA"][0], w.cli["cliAi"][1]}
	w.cli["missing"] = [2]string{filepath.Join(dir, "gone.pem"), filepath.Join(dir, "gone.key")}
	w.cli["none"] = [2]string{"", ""}
	return w
}

func (w *world) file(as []string) string {
	n := filepath.Join(w.dir, "f-"+strings.Join(as, "-")+".pem")
	if as[0] == "missing" {
		return n
	}
	if as[0] == "junk" {
		return filepath.Join(w.dir, "junk.pem")
	}
	var l []*authority
	for _, a := range as {
		l = append(l, w.cas[a])
	}
	os.WriteFile(n, pemOf(l...), 0o644)
	return n
}

func (w *world) serverCert(s srv) *tls.Certificate {
	s.Want = ""
	key := fmt.Sprint(s)
	w.mu.Lock()
	defer w.mu.Unlock()
	if c := w.certs[key]; c != nil {
		return c
	}
	t := &x509.Certificate{Subject: pkix.Name{CommonName: "server"}, DNSNames: []string{s.Host + ".test"}, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	t.NotBefore, t.NotAfter = time.Now().Add(-time.Hour), time.Now().Add(time.Hour)
	switch s.Time {
	case "expired":
		t.NotBefore, t.NotAfter = time.Now().Add(-3*time.Hour), time.Now().Add(-2*time.Hour)
	case "future":
		t.NotBefore, t.NotAfter = time.Now().Add(2*time.Hour), time.Now().Add(3*time.Hour)
	}
	var a *authority
	c := &tls.Certificate{}
	switch {
	case s.Anchor == "self" && s.Host == "right" && s.Time == "valid":
		a = w.cas["self"]
	case s.Anchor == "self":
		a = issue(nil, t)
	case s.Via:
		a = issue(w.inter, t)
	default:
		a = issue(w.cas[s.Anchor], t)
	}
	c.Certificate = [][]byte{a.der}
	if s.Via {
		c.Certificate = append(c.Certificate, w.inter.der)
	}
	c.PrivateKey = a.key
	w.certs[key] = c
	return c
}

type seen struct {
	saw bool
	id  string
}

// serve handles one connection of a server; requests carry a number.
func (w *world) serve(conn net.Conn, s srv, sc *script, mu *sync.Mutex, log map[string]*seen) {
	defer conn.Close()
	c := &tls.Config{Certificates: []tls.Certificate{*w.serverCert(s)}}
	if sc.V12 {
		c.MaxVersion = tls.VersionTLS12
	}
	switch s.Want {
	case "ask":
		c.ClientAuth = tls.RequestClientCert
	case "reqA":
		c.ClientAuth = tls.RequireAndVerifyClientCert
		c.ClientCAs = w.poolA
	}
	id := "none"
	c.VerifyPeerCertificate = func(raw [][]byte, _ [][]*x509.Certificate) error { return nil }
	tc := tls.Server(conn, c)
	tc.SetDeadline(time.Now().Add(20 * time.Second))
	err := tc.Handshake()
	if l := tc.ConnectionState().PeerCertificates; len(l) > 0 {
		id = w.who[l[0].SerialNumber.String()]
		if id == "" {
			id = "stranger"
		}
	}
	if err != nil {
		return
	}
	br := bufio.NewReader(tc)
	for {
		r, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		b, _ := io.ReadAll(r.Body)
		mu.Lock()
		log[r.Header.Get("X-N")] = &seen{true, id}
		mu.Unlock()
		keep := "close"
		if sc.Keep {
			keep = "keep-alive"
		}
		fmt.Fprintf(tc, "HTTP/1.1 200 OK\r\nConnection: %s\r\nContent-Length: %d\r\n\r\n%s", keep, len(b)+2, "re"+string(b))
		if !sc.Keep {
			return
		}
	}
}

func (w *world) run(s *script) []hx.Ev {
	evs := []hx.Ev{}
	var mu sync.Mutex
	got := map[string]*seen{}
	cl := make([]*fasthttp.Client, len(s.Par.C))
	for i, p := range s.Par.C {
		var files []string
		for _, f := range p.Files {
			files = append(files, w.file(f))
		}
		conf := &confs.FastHttpClientConf{SslTrustMode: p.Mode, SslTrustCerts: strings.Join(files, ","), CertChain: w.cli[p.Cert][0], PrivateKey: w.cli[p.Cert][1], ReadTimeout: 20 * time.Second, WriteTimeout: 20 * time.Second}
		dial := func(addr string) (net.Conn, error) {
			var j int
			fmt.Sscanf(addr, "right.test:%d", &j)
			if j < 1 {
				return nil, fmt.Errorf("no such server: %s", addr)
			}
			pc := fasthttputil.NewPipeConns()
			go w.serve(pc.Conn2(), s.Par.S[j-1], s, &mu, got)
			return pc.Conn1(), nil
		}
		func() {
			defer func() {
				r := recover()
				evs = append(evs, hx.Ev{"e": "make", "i": i + 1, "ok": r == nil && cl[i] != nil})
			}()
			cl[i] = confs.NewFastHttpClient(conf, func(hc *fasthttp.Client) { hc.Dial = dial })
		}()
	}
	var n int
	do := func(op [2]int) {
		if cl[op[0]-1] == nil {
			return
		}
		mu.Lock()
		n++
		id := fmt.Sprint(n)
		mu.Unlock()
		req, rsp := fasthttp.AcquireRequest(), fasthttp.AcquireResponse()
		req.SetRequestURI(fmt.Sprintf("https://right.test:%d/x", op[1]))
		req.Header.SetMethod("POST")
		req.Header.Set("X-N", id)
		req.SetBodyString("b" + id)
		err := cl[op[0]-1].Do(req, rsp)
		ok := err == nil && rsp.StatusCode() == 200 && string(rsp.Body()) == "reb"+id
		mu.Lock()
		defer mu.Unlock()
		e := hx.Ev{"e": "conn", "i": op[0], "j": op[1], "ok": ok, "saw": false, "id": "none"}
		if g := got[id]; g != nil {
			e["saw"], e["id"] = g.saw, g.id
		}
		evs = append(evs, e)
	}
	if s.Conc {
		var wg sync.WaitGroup
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := g; i < len(s.Ops); i += 3 {
					do(s.Ops[i])
				}
			}()
		}
		wg.Wait()
	} else {
		for _, op := range s.Ops {
			do(op)
		}
	}
	for _, c := range cl {
		if c != nil {
			c.CloseIdleConnections()
		}
	}
	return evs
}

func TestTls(t *testing.T) {
	var in struct{ Scripts []script }
	hx.In(t, &in)
	log.SetOutput(io.Discard)
	w := newWorld(t.TempDir())
	ts := &hx.Traces{}
	for i := range in.Scripts {
		s := &in.Scripts[i]
		if s.Child && os.Getenv("VH_CHILD") == "" {
			evs := []hx.Ev{}
			d := t.TempDir()
			b := must(json.Marshal(map[string]any{"Scripts": []script{*s}}))
			os.WriteFile(d+"/in", b, 0o644)
			c := exec.Command(os.Args[0], "-test.run", "^TestTls$", "-test.count=1")
			c.Env = append(os.Environ(), "VH_CHILD=1", "VH_IN="+d+"/in", "VH_OUT="+d+"/out")
			c.Run()
			var o struct {
				Traces []struct{ Ev []hx.Ev }
			}
			if b, err := os.ReadFile(d + "/out"); err == nil && json.Unmarshal(b, &o) == nil && len(o.Traces) == 1 {
				evs = o.Traces[0].Ev
			} else {
				evs = append(evs, hx.Ev{"e": "make", "i": 1, "ok": false})
			}
			ts.Add(map[string]any{"par": s.Par, "ev": evs})
			continue
		}
		ts.Add(map[string]any{"par": s.Par, "ev": w.run(s)})
	}
	hx.OutTraces(t, ts)
}

package conn

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha1"
	"database/sql/driver"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	go_ora "github.com/sijms/go-ora/v2"
	"verif/hx"
)

type cust struct {
	What string `json:"what"`
	Val  string `json:"val"`
}

type conf struct {
	User  string      `json:"user"`
	Pw    string      `json:"pw"`
	Db    string      `json:"db"`
	Opts  [][2]string `json:"opts"`
	Max   int         `json:"max"`
	Idle  int         `json:"idle"`
	Min   int         `json:"min"`
	Life  string      `json:"life"`
	Typed bool        `json:"typed"`
	Loc   string      `json:"loc"`
	Rt    string      `json:"rt"`
	Seen  [][2]string `json:"seen"`
	Cust  cust        `json:"cust"`
}

type accept struct {
	User string   `json:"user"`
	Pw   string   `json:"pw"`
	Dbs  []string `json:"dbs"`
	Hang bool     `json:"hang"`
	Down bool     `json:"down"`
}

type parT struct {
	Kind string `json:"kind"`
	Conf conf   `json:"conf"`
	Srv  accept `json:"srv"`
}

// server is a fake database server on a loopback address.
type server struct {
	p    parT
	mu   sync.Mutex
	evs  []hx.Ev
	open map[any]int
	next int
	held map[string]int // token -> connection that asked to be held
	park map[string]chan struct{}
	at   map[string]bool
	lns  []net.Listener
	auto map[string]bool
}

func (s *server) log(e hx.Ev) { s.mu.Lock(); s.evs = append(s.evs, e); s.mu.Unlock() }

func (s *server) add(c io.Closer) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.next++
	s.open[c] = s.next
	return s.next
}

func (s *server) drop(c io.Closer) { s.mu.Lock(); delete(s.open, c); s.mu.Unlock(); c.Close() }

func (s *server) count() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.open) }

func (s *server) holder(tok string) int { s.mu.Lock(); defer s.mu.Unlock(); return s.held[tok] }

func (s *server) hold(tok string, c int) { s.mu.Lock(); s.held[tok] = c; s.mu.Unlock() }

func (s *server) close() {
	for _, l := range s.lns {
		l.Close()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range s.open {
		if k, ok := c.(net.Conn); ok {
			k.Close()
		}
	}
	for _, c := range s.park {
		close(c)
	}
	s.park = nil
}

func in(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (s *server) ok(user, pw, db string) bool {
	return user == s.p.Srv.User && pw == s.p.Srv.Pw && in(s.p.Srv.Dbs, db)
}

func listen() net.Listener {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	return l
}

func newServer(p parT) *server {
	s := &server{p: p, open: map[any]int{}, held: map[string]int{}, park: map[string]chan struct{}{}, at: map[string]bool{}}
	n := 1
	if p.Kind == "es2" {
		n = len(p.Srv.Dbs)
	}
	for i := 0; i < n; i++ {
		l := listen()
		s.lns = append(s.lns, l)
		if p.Kind == "ora" {
			oracles.Store(strconv.Itoa(l.Addr().(*net.TCPAddr).Port), s)
			continue
		}
		if p.Srv.Down {
			l.Close()
			continue
		}
		if strings.HasPrefix(p.Kind, "es") {
			s.http(l, p.Srv.Dbs[i])
			continue
		}
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				id := s.add(c)
				go func() {
					defer s.drop(c)
					if p.Srv.Hang {
						io.Copy(io.Discard, c)
						return
					}
					switch p.Kind {
					case "mysql":
						s.mysql(c, id)
					case "pg":
						s.pg(c, id)
					case "redis":
						s.redis(c, id)
					}
				}()
			}
		}()
	}
	return s
}

const slowReply = 2200 * time.Millisecond

// ---- MySQL

func (s *server) mysql(c net.Conn, id int) {
	r := bufio.NewReader(c)
	read := func() (byte, []byte, bool) {
		var h [4]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return 0, nil, false
		}
		b := make([]byte, int(h[0])|int(h[1])<<8|int(h[2])<<16)
		_, err := io.ReadFull(r, b)
		return h[3], b, err == nil
	}
	send := func(seq byte, ps ...[]byte) bool {
		var o []byte
		for i, p := range ps {
			o = append(o, byte(len(p)), byte(len(p)>>8), byte(len(p)>>16), seq+byte(i))
			o = append(o, p...)
		}
		_, err := c.Write(o)
		return err == nil
	}
	okp := []byte{0, 0, 0, 2, 0, 0, 0}
	errp := func(code int, msg string) []byte {
		return append([]byte{0xff, byte(code), byte(code >> 8), '#', '2', '8', '0', '0', '0'}, msg...)
	}
	salt := []byte("abcdefgh12345678ijkl")
	const caps = 0x1 | 0x4 | 0x8 | 0x200 | 0x2000 | 0x8000 | 0x80000
	g := append([]byte{10}, "8.0.1\x00"...)
	g = append(g, byte(id), 0, 0, 0)
	g = append(g, salt[:8]...)
	g = append(g, 0, caps&0xff, caps>>8&0xff, 45, 2, 0, caps>>16&0xff, caps>>24, 21)
	g = append(g, make([]byte, 10)...)
	g = append(g, salt[8:]...)
	g = append(g, 0)
	g = append(g, "mysql_native_password\x00"...)
	if !send(0, g) {
		return
	}
	seq, b, ok := read()
	if !ok || len(b) < 33 {
		return
	}
	fl := binary.LittleEndian.Uint32(b)
	b = b[32:]
	cut := func() string {
		i := bytes.IndexByte(b, 0)
		if i < 0 {
			x := string(b)
			b = nil
			return x
		}
		x := string(b[:i])
		b = b[i+1:]
		return x
	}
	user := cut()
	n := int(b[0])
	auth := b[1 : 1+n]
	b = b[1+n:]
	db := ""
	if fl&8 != 0 {
		db = cut()
	}
	scramble := func(pw string) []byte {
		if pw == "" {
			return []byte{}
		}
		a := sha1.Sum([]byte(pw))
		d := sha1.Sum(a[:])
		e := sha1.Sum(append(append([]byte{}, salt...), d[:]...))
		for i := range a {
			a[i] ^= e[i]
		}
		return a[:]
	}
	pw := "another password"
	for _, x := range []string{s.p.Conf.Pw, s.p.Srv.Pw, ""} {
		if bytes.Equal(scramble(x), auth) {
			pw = x
			break
		}
	}
	s.log(hx.Ev{"e": "login", "c": id, "user": user, "pw": pw, "db": db})
	if !s.ok(user, pw, db) {
		send(seq+1, errp(1045, "Access denied"))
		return
	}
	if !send(seq+1, okp) {
		return
	}
	opts, ready := [][2]string{}, false
	for {
		seq, b, ok := read()
		if !ok || len(b) == 0 || b[0] == 1 {
			return
		}
		q := string(b[1:])
		if b[0] == 3 && strings.HasPrefix(q, "SET ") && !ready {
			opts = append(opts, assignments(q[4:])...)
			send(seq+1, okp)
			continue
		}
		if !ready {
			ready = true
			s.log(hx.Ev{"e": "set", "c": id, "opts": opts})
		}
		switch {
		case b[0] == 14:
			send(seq+1, okp)
		case strings.HasPrefix(q, "HOLD "):
			s.hold(q[5:], id)
			send(seq+1, okp)
		case q == "SLOW":
			time.Sleep(slowReply)
			send(seq+1, okp)
		case q == "TYPED":
			col := append([]byte{3}, "def\x00\x00\x00\x01t\x01t\x0c\x3f\x00\x13\x00\x00\x00\x0c\x80\x00\x00\x00\x00"...)
			eof := []byte{0xfe, 0, 0, 2, 0}
			send(seq+1, []byte{1}, col, eof, append([]byte{19}, "2021-03-04 05:06:07"...), eof)
		default:
			send(seq+1, errp(1064, "unknown statement"))
		}
	}
}

// assignments splits a=1,b='x,y'
func assignments(q string) (l [][2]string) {
	quoted := false
	k, v, val := "", "", false
	flush := func() {
		l = append(l, [2]string{strings.TrimSpace(k), v})
		k, v, val = "", "", false
	}
	for i := 0; i < len(q); i++ {
		ch := q[i]
		switch {
		case ch == ',' && !quoted:
			flush()
			continue
		case ch == '=' && !val:
			val = true
			continue
		case ch == '\'':
			quoted = !quoted
		}
		if val {
			v += q[i : i+1]
		} else {
			k += q[i : i+1]
		}
	}
	flush()
	return
}

// ---- PostgreSQL

func (s *server) pg(c net.Conn, id int) {
	r := bufio.NewReader(c)
	body := func() ([]byte, bool) {
		var h [4]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return nil, false
		}
		b := make([]byte, int(binary.BigEndian.Uint32(h[:]))-4)
		_, err := io.ReadFull(r, b)
		return b, err == nil
	}
	msg := func(t byte, b string) []byte {
		o := []byte{t, 0, 0, 0, 0}
		binary.BigEndian.PutUint32(o[1:], uint32(len(b)+4))
		return append(o, b...)
	}
	send := func(ms ...[]byte) { c.Write(bytes.Join(ms, nil)) }
	var par [][2]string
	for {
		b, ok := body()
		if !ok || len(b) < 4 {
			return
		}
		if binary.BigEndian.Uint32(b) == 80877103 {
			c.Write([]byte{'N'})
			continue
		}
		f := strings.Split(string(b[4:]), "\x00")
		for i := 0; i+1 < len(f) && f[i] != ""; i += 2 {
			par = append(par, [2]string{f[i], f[i+1]})
		}
		break
	}
	user, db, opts := "", "", [][2]string{}
	for _, kv := range par {
		switch {
		case kv[0] == "user":
			user = kv[1]
		case kv[0] == "database":
			db = kv[1]
		case !s.auto[kv[0]+"="+kv[1]]: // what the driver itself always sets
			opts = append(opts, kv)
		}
	}
	send(msg('R', "\x00\x00\x00\x03"))
	t, err := r.ReadByte()
	b, ok := body()
	if err != nil || t != 'p' || !ok {
		return
	}
	pw := strings.TrimSuffix(string(b), "\x00")
	s.log(hx.Ev{"e": "login", "c": id, "user": user, "pw": pw, "db": db})
	if !s.ok(user, pw, db) {
		send(msg('E', "SFATAL\x00VFATAL\x00C28P01\x00Mpassword authentication failed\x00\x00"))
		return
	}
	ready := msg('Z', "I")
	send(msg('R', "\x00\x00\x00\x00"), msg('S', "server_version\x0014.1\x00"), ready)
	first := true
	for {
		t, err := r.ReadByte()
		b, ok := body()
		if err != nil || !ok || t == 'X' {
			return
		}
		if first {
			first = false
			s.log(hx.Ev{"e": "set", "c": id, "opts": opts})
		}
		if t != 'Q' {
			continue
		}
		q := strings.TrimSuffix(string(b), "\x00")
		if strings.HasPrefix(q, "HOLD ") {
			s.hold(q[5:], id)
			send(msg('C', "SET\x00"), ready)
		} else {
			send(msg('I', ""), ready)
		}
	}
}

// ---- Oracle: the driver's connections are replaced, see lib/a_conn.py

var oracles sync.Map // port -> server

type oraConn struct {
	s    *server
	id   int
	opts [][2]string
	set  bool
}

func (o *oraConn) Close() error                        { o.s.drop(nop{o}); return nil }
func (o *oraConn) Prepare(string) (driver.Stmt, error) { return nil, errors.New("not supported") }
func (o *oraConn) Begin() (driver.Tx, error)           { return nil, errors.New("not supported") }
func (o *oraConn) settings() {
	if !o.set {
		o.set = true
		o.s.log(hx.Ev{"e": "set", "c": o.id, "opts": o.opts})
	}
}
func (o *oraConn) Ping(context.Context) error { o.settings(); return nil }
func (o *oraConn) ExecContext(_ context.Context, q string, _ []driver.NamedValue) (driver.Result, error) {
	o.settings()
	o.s.hold(strings.TrimPrefix(q, "HOLD "), o.id)
	return driver.ResultNoRows, nil
}

type nop struct{ o *oraConn }

func (nop) Close() error { return nil }

// oracle connects as the driver was told to.
func oracle(w go_ora.VerifWant) (driver.Conn, error) {
	_, port, err := net.SplitHostPort(w.Servers[0])
	if err != nil {
		return nil, err
	}
	x, ok := oracles.Load(port)
	if !ok {
		return nil, errors.New("connection refused")
	}
	s := x.(*server)
	if s.p.Srv.Down {
		return nil, errors.New("connection refused")
	}
	o := &oraConn{s: s, opts: [][2]string{{"host", strings.TrimSuffix(w.Servers[0], ":"+port)}}}
	if len(w.Servers) > 1 {
		o.opts = append(o.opts, [2]string{"servers", strings.Join(w.Servers[1:], ",")})
	}
	if w.Timeout != 15 { // the driver's own
		o.opts = append(o.opts, [2]string{"timeout", strconv.Itoa(w.Timeout)})
	}
	if w.Instance != "" {
		o.opts = append(o.opts, [2]string{"application_name", w.Instance})
	}
	if w.Prefetch != 25 { // the driver's own
		o.opts = append(o.opts, [2]string{"PREFETCH_ROWS", strconv.Itoa(w.Prefetch)})
	}
	o.id = s.add(nop{o})
	db := w.Service + "|" + w.Sid
	s.log(hx.Ev{"e": "login", "c": o.id, "user": w.User, "pw": w.Password, "db": db})
	if s.p.Srv.Hang {
		time.Sleep(time.Duration(w.Timeout) * time.Second)
		s.drop(nop{o})
		return nil, errors.New("timeout")
	}
	if !s.ok(w.User, w.Password, db) {
		s.drop(nop{o})
		return nil, errors.New("ORA-01017: invalid username/password; logon denied")
	}
	return o, nil
}

// ---- Redis

func (s *server) redis(c net.Conn, id int) {
	r := bufio.NewReader(c)
	line := func() (string, bool) {
		l, err := r.ReadString('\n')
		return strings.TrimRight(l, "\r\n"), err == nil
	}
	pw, db, in := "", "0", false
	for {
		l, ok := line()
		if !ok || !strings.HasPrefix(l, "*") {
			return
		}
		n, _ := strconv.Atoi(l[1:])
		var a []string
		for i := 0; i < n; i++ {
			l, ok := line()
			if !ok || !strings.HasPrefix(l, "$") {
				return
			}
			k, _ := strconv.Atoi(l[1:])
			b := make([]byte, k+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			a = append(a, string(b[:k]))
		}
		rep := "+OK"
		switch strings.ToUpper(a[0]) {
		case "AUTH":
			pw = a[len(a)-1]
			if s.p.Srv.Pw == "" || pw != s.p.Srv.Pw {
				rep = "-ERR invalid password"
			}
		case "SELECT":
			if pw != s.p.Srv.Pw {
				rep = "-NOAUTH Authentication required."
			} else if !contains(s.p.Srv.Dbs, a[1]) {
				rep = "-ERR DB index is out of range"
			} else {
				db = a[1]
			}
		default:
			if !s.ok("", pw, db) {
				rep = "-NOAUTH Authentication required."
				break
			}
			if !in {
				in = true
				s.log(hx.Ev{"e": "login", "c": id, "user": "", "pw": pw, "db": db})
				s.log(hx.Ev{"e": "set", "c": id, "opts": [][2]string{}})
			}
			if strings.ToUpper(a[0]) == "HOLD" {
				s.hold(a[1], id)
			}
			if strings.ToUpper(a[0]) == "PING" {
				rep = "+PONG"
			}
		}
		if _, err := c.Write([]byte(rep + "\r\n")); err != nil {
			return
		}
	}
}

func contains(l []string, x string) bool { return in(l, x) }

// ---- Elasticsearch

type connKey struct{}

func (s *server) http(l net.Listener, name string) {
	first := map[int]bool{}
	h := &http.Server{
		ConnContext: func(ctx context.Context, c net.Conn) context.Context { return context.WithValue(ctx, connKey{}, c) },
		ConnState: func(c net.Conn, st http.ConnState) {
			switch st {
			case http.StateNew:
				s.add(c)
			case http.StateClosed, http.StateHijacked:
				s.mu.Lock()
				delete(s.open, c)
				s.mu.Unlock()
			}
		},
		Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			user, pw := "", ""
			if a := q.Header.Get("Authorization"); strings.HasPrefix(a, "Basic ") {
				b, _ := base64.StdEncoding.DecodeString(a[6:])
				user, pw, _ = strings.Cut(string(b), ":")
			}
			s.mu.Lock()
			id := s.open[q.Context().Value(connKey{}).(net.Conn)]
			s.at[name] = true
			if !first[id] {
				first[id] = true
				s.evs = append(s.evs, hx.Ev{"e": "login", "c": id, "user": user, "pw": pw, "db": s.p.Conf.Db}, hx.Ev{"e": "set", "c": id, "opts": [][2]string{}})
			} else {
				s.evs = append(s.evs, hx.Ev{"e": "again", "c": id, "user": user, "pw": pw})
			}
			s.mu.Unlock()
			if user != s.p.Srv.User || pw != s.p.Srv.Pw {
				w.WriteHeader(401)
				return
			}
			if tok, ok := strings.CutPrefix(q.URL.Path, "/hold/"); ok {
				s.mu.Lock()
				s.held[tok] = id
				ch := s.park[tok]
				s.mu.Unlock()
				if ch != nil {
					select {
					case <-ch:
					case <-q.Context().Done():
					}
				}
			}
			w.Header().Set("Content-Type", "application/json")
			w.Header().Set("X-Elastic-Product", "Elasticsearch")
			fmt.Fprint(w, "{}")
		}),
	}
	go h.Serve(l)
}

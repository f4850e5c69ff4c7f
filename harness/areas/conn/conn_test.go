package conn

import (
	"context"
	"database/sql"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/simplelog"
	"github.com/elastic/go-elasticsearch/v7"
	"github.com/go-redis/redis/v7"
	"github.com/go-sql-driver/mysql"
	go_ora "github.com/sijms/go-ora/v2"
	"verif/hx"
)

type script struct {
	Par    parT
	Acts   []struct{ K, H string }
	Params string
	Cust   bool
	Tracer bool
	Host   string
	Dial   int // seconds to connect (PostgreSQL), 0 none
	Times  [3]int

	Service, Sid, Servers string
}

// client is what the driver does with a client of any kind.
type client interface {
	want(tok string, d time.Duration) (func(), error)
	typed(tok string) (bool, string)
	slow(tok string) bool
	close()
}

type exit struct{}

// the process would end here
type exiting struct{}

func (exiting) Write(b []byte) (int, error) {
	pc := make([]uintptr, 20)
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "log.(*Logger).Fatal") {
			panic(exit{})
		}
		if !more {
			return len(b), nil
		}
	}
}

const lifeShort = 80 * time.Millisecond

func life(s string) time.Duration {
	return map[string]time.Duration{"none": 0, "short": lifeShort, "long": time.Hour}[s]
}

func wait(s string) time.Duration {
	return map[string]time.Duration{"none": 0, "short": 1500 * time.Millisecond, "long": time.Hour}[s]
}

// ---- SQL

type sqlClient struct {
	db *sql.DB
	m  map[string]*sql.Conn
}

func (c *sqlClient) want(tok string, d time.Duration) (func(), error) {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	k, err := c.db.Conn(ctx)
	if err != nil {
		return nil, err
	}
	if _, err := k.ExecContext(context.Background(), "HOLD "+tok); err != nil {
		k.Close()
		return nil, fmt.Errorf("hold: %v", err)
	}
	c.m[tok] = k
	return func() { k.Close() }, nil
}

func (c *sqlClient) typed(tok string) (bool, string) {
	var v any
	if err := c.m[tok].QueryRowContext(context.Background(), "TYPED").Scan(&v); err != nil {
		return false, err.Error()
	}
	t, ok := v.(time.Time)
	if !ok {
		return false, fmt.Sprintf("%T", v)
	}
	if t.Format("2006-01-02 15:04:05") != "2021-03-04 05:06:07" {
		return true, t.String()
	}
	return true, t.Location().String()
}

func (c *sqlClient) slow(tok string) bool {
	_, err := c.m[tok].ExecContext(context.Background(), "SLOW")
	return err == nil
}

func (c *sqlClient) close() { c.db.Close() }

// ---- Redis

type redisClient struct {
	c *redis.Client
}

func (c *redisClient) want(tok string, d time.Duration) (func(), error) {
	k := c.c.Conn()
	if err := k.Process(redis.NewStatusCmd("HOLD", tok)); err != nil {
		k.Close()
		return nil, err
	}
	return func() { k.Close() }, nil
}
func (c *redisClient) typed(string) (bool, string) { panic("typed") }
func (c *redisClient) slow(string) bool            { panic("slow") }
func (c *redisClient) close()                      { c.c.Close() }

// ---- Elasticsearch

type esClient struct {
	c *elasticsearch.Client
	s *server
}

func (c *esClient) want(tok string, d time.Duration) (func(), error) {
	ch, done := make(chan struct{}), make(chan error, 1)
	c.s.mu.Lock()
	c.s.park[tok] = ch
	c.s.mu.Unlock()
	ctx, cancel := context.WithCancel(context.Background())
	q, _ := http.NewRequestWithContext(ctx, "GET", "/hold/"+tok, nil)
	go func() {
		res, err := c.c.Perform(q)
		if err == nil {
			io.Copy(io.Discard, res.Body)
			res.Body.Close()
			if res.StatusCode != 200 {
				err = fmt.Errorf("status %d", res.StatusCode)
			}
		}
		done <- err
	}()
	end := time.Now().Add(d)
	for c.s.holder(tok) == 0 {
		select {
		case err := <-done:
			cancel()
			return nil, fmt.Errorf("ended: %v", err)
		case <-time.After(time.Millisecond):
		}
		if time.Now().After(end) {
			cancel()
			<-done
			return nil, context.DeadlineExceeded
		}
	}
	return func() {
		c.s.mu.Lock()
		if c.s.park != nil {
			close(ch)
			delete(c.s.park, tok)
		}
		c.s.mu.Unlock()
		<-done
		cancel()
	}, nil
}
func (c *esClient) typed(string) (bool, string) { panic("typed") }
func (c *esClient) slow(string) bool            { panic("slow") }
func (c *esClient) close()                      {}

func pairs(m map[string]string) [][2]string {
	l := [][2]string{}
	for k, v := range m {
		l = append(l, [2]string{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] })
	return l
}

// make makes the client as the script says.
func (sc *script) make(s *server) client {
	c := sc.Par.Conf
	port := s.lns[0].Addr().(*net.TCPAddr).Port
	shown := func(l [][2]string) { s.log(hx.Ev{"e": "shown", "seen": l}) }
	var tr *go2sky.Tracer
	if sc.Tracer {
		tr, _ = go2sky.NewTracer("conn")
	}
	switch sc.Par.Kind {
	case "mysql":
		cf := &confs.MysqlConf{Host: sc.Host, Port: port, Username: c.User, Password: c.Pw, Database: c.Db, MaxOpenConns: c.Max, MaxIdleConns: c.Idle, ConnMaxLifetime: life(c.Life),
			ReadTimeout: wait(c.Rt), Timeout: time.Duration(sc.Times[0]) * time.Second, WriteTimeout: time.Duration(sc.Times[1]) * time.Second, Loc: c.Loc, ParseTime: c.Typed, Params: sc.Params}
		var f confs.MysqlConfigCustomizer
		if sc.Cust {
			f = func(m *mysql.Config) {
				shown(pairs(map[string]string{"user": m.User, "pw": m.Passwd, "db": m.DBName, "net": m.Net, "timeout": m.Timeout.String(), "read": m.ReadTimeout.String(), "write": m.WriteTimeout.String(),
					"typed": fmt.Sprint(m.ParseTime), "loc": m.Loc.String(), "host": strings.TrimSuffix(m.Addr, fmt.Sprint(":", port))}))
				switch c.Cust.What {
				case "user":
					m.User = c.Cust.Val
				case "db":
					m.DBName = c.Cust.Val
				}
			}
		}
		if sc.Tracer {
			return &sqlClient{confs.NewMySqlDbWithTracer(cf, tr, f), map[string]*sql.Conn{}}
		}
		return &sqlClient{confs.NewMySqlDb(cf, f), map[string]*sql.Conn{}}
	case "pg":
		cf := &confs.PostgresqlConf{Host: sc.Host, Port: port, Username: c.User, Password: c.Pw, Database: c.Db, ConnectTimeout: sc.Dial, MaxOpenConns: c.Max, MaxIdleConns: c.Idle,
			ConnMaxLifetime: life(c.Life), Params: sc.Params}
		var f confs.PostgresqlUrlOptionsCustomizer
		if sc.Cust {
			f = func(o map[string]string) {
				shown(pairs(map[string]string{"connect_timeout": o["connect_timeout"]}))
				if c.Cust.What == "opt" {
					o["application_name"] = c.Cust.Val
				}
			}
		}
		if sc.Tracer {
			return &sqlClient{confs.NewPostgresqlDbWithTracer(cf, tr, f), map[string]*sql.Conn{}}
		}
		return &sqlClient{confs.NewPostgresqlDb(cf, f), map[string]*sql.Conn{}}
	case "ora":
		cf := &confs.OracleConf{Host: sc.Host, Port: port, Username: c.User, Password: c.Pw, Service: sc.Service, Sid: sc.Sid, Servers: sc.Servers, ConnectTimeout: sc.Dial,
			MaxOpenConns: c.Max, MaxIdleConns: c.Idle, ConnMaxLifetime: life(c.Life), Params: sc.Params}
		var f confs.OracleUrlOptionsCustomizer
		if sc.Cust {
			f = func(o map[string]string) {
				shown(pairs(map[string]string{"timeout": o["CONNECTION TIMEOUT"], "sid": o["SID"], "servers": o["server"]}))
				if c.Cust.What == "opt" {
					o["INSTANCE NAME"] = c.Cust.Val
				}
			}
		}
		if sc.Tracer {
			return &sqlClient{confs.NewOracleDbWithTracer(cf, tr, f), map[string]*sql.Conn{}}
		}
		return &sqlClient{confs.NewOracleDb(cf, f), map[string]*sql.Conn{}}
	case "redis":
		db := 0
		fmt.Sscan(c.Db, &db)
		cf := &confs.RedisConf{Host: sc.Host, Port: port, Password: c.Pw, Pool: c.Max, MinIdle: c.Min, Db: db}
		var f confs.RedisOptionCustomizer
		if sc.Cust {
			f = func(o *redis.Options) {
				shown(pairs(map[string]string{"pw": o.Password, "db": fmt.Sprint(o.DB), "pool": fmt.Sprint(o.PoolSize), "min": fmt.Sprint(o.MinIdleConns),
					"host": strings.TrimSuffix(o.Addr, fmt.Sprint(":", port))}))
				o.PoolTimeout = 150 * time.Millisecond
				o.ReadTimeout = time.Minute
				o.IdleCheckFrequency = -1
				if c.Cust.What == "db" {
					fmt.Sscan(c.Cust.Val, &o.DB)
				}
			}
		}
		k := confs.NewRedisClient(cf, f)
		if k == nil {
			panic("no client")
		}
		return &redisClient{k}
	default:
		var ad []string
		for _, l := range s.lns {
			ad = append(ad, fmt.Sprintf("http://%s:%d", sc.Host, l.Addr().(*net.TCPAddr).Port))
		}
		cf := &confs.EsConf{Addrs: strings.Join(ad, ","), Username: c.User, Password: c.Pw, MaxConnsPerHost: c.Max, MaxIdleConnsPerHost: c.Idle}
		var f confs.EsConfigCustomizer
		if sc.Cust {
			f = func(m *elasticsearch.Config) {
				at := strings.Join(m.Addresses, ",") == strings.Join(ad, ",")
				shown(pairs(map[string]string{"user": m.Username, "pw": m.Password, "addrs": fmt.Sprint(at)}))
				if c.Cust.What == "user" {
					m.Username = c.Cust.Val
				}
			}
		}
		k := confs.NewEsClient(cf, f)
		if k == nil {
			panic("no client")
		}
		return &esClient{k, s}
	}
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (sc *script) run(auto map[string]bool) map[string]any {
	p := sc.Par
	s := newServer(p)
	s.auto = auto
	defer s.close()
	made := make(chan client, 1)
	var why any
	go func() {
		defer func() {
			if why = recover(); why != nil {
				made <- nil
			}
		}()
		made <- sc.make(s)
	}()
	var cl client
	select {
	case cl = <-made:
		if cl == nil {
			s.log(hx.Ev{"e": "fatal", "why": fmt.Sprint(why)})
		} else {
			s.log(hx.Ev{"e": "ready"})
		}
	case <-time.After(40 * time.Second):
		s.log(hx.Ev{"e": "stuck"})
	}
	if cl == nil {
		return map[string]any{"par": p, "ev": s.evs}
	}
	defer cl.close()
	// what the pool should be, to know how long to wait for it
	keep := p.Conf.Idle
	if p.Kind == "es" && keep == 0 {
		keep = 2
	}
	if p.Conf.Max > 0 {
		keep = min2(keep, p.Conf.Max)
	}
	exact := p.Kind == "es" || p.Conf.Life != "short" && p.Kind != "redis"
	idle, bad := min2(keep, 1), map[string]bool{}
	free, toks := map[string]func(){}, map[string]string{}
	rest := func() {
		if p.Kind == "es2" {
			return
		}
		end := time.Now().Add(4 * time.Second)
		for {
			n, b := s.count(), len(free)
			lo, hi := b-len(bad), b+keep
			if exact {
				lo, hi = b-len(bad)+idle, b-len(bad)+idle
			} else if p.Kind == "redis" {
				lo, hi = min2(b+p.Conf.Min, p.Conf.Max), p.Conf.Max
				if p.Conf.Min > 0 {
					hi += b
				}
			} else if p.Conf.Max > 0 {
				hi = min2(hi, p.Conf.Max)
			}
			if n >= lo && n <= hi || time.Now().After(end) {
				s.log(hx.Ev{"e": "rest", "n": n})
				return
			}
			time.Sleep(time.Millisecond)
		}
	}
	rest()
	for i, a := range sc.Acts {
		h := a.H
		switch a.K {
		case "want":
			if free[h] != nil {
				continue
			}
			full := p.Conf.Max > 0 && len(free) >= p.Conf.Max
			d := 8 * time.Second
			if full {
				d = 60 * time.Millisecond
			}
			tok := fmt.Sprint("t", i)
			f, err := cl.want(tok, d)
			switch {
			case err == nil:
				free[h], toks[h] = f, tok
				if idle > 0 {
					idle--
				}
				s.log(hx.Ev{"e": "hold", "h": h, "c": s.holder(tok)})
			case err == context.DeadlineExceeded || strings.Contains(err.Error(), "pool timeout"):
				s.log(hx.Ev{"e": "refused", "h": h})
			default:
				s.log(hx.Ev{"e": "failed", "h": h, "err": err.Error()})
			}
		case "free":
			if free[h] == nil {
				continue
			}
			// the connection may be used by others as soon as it is given back
			free[h]()
			s.log(hx.Ev{"e": "free", "h": h})
			delete(free, h)
			if !bad[h] && idle < keep {
				idle++
			}
			delete(bad, h)
		case "pass":
			time.Sleep(2 * lifeShort)
			s.log(hx.Ev{"e": "pass"})
		case "typed":
			if free[h] != nil && !bad[h] {
				t, l := cl.typed(toks[h])
				s.log(hx.Ev{"e": "typed", "h": h, "t": t, "loc": l})
			}
			continue
		case "slow":
			if free[h] != nil && !bad[h] {
				ok := cl.slow(toks[h])
				if !ok {
					bad[h] = true
				}
				s.log(hx.Ev{"e": "slow", "h": h, "ok": ok})
			}
		}
		rest()
	}
	if p.Kind == "es2" {
		at := []string{}
		for a := range s.at {
			at = append(at, a)
		}
		s.log(hx.Ev{"e": "spread", "at": at})
	}
	for _, f := range free {
		f()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return map[string]any{"par": p, "ev": append([]hx.Ev{}, s.evs...)}
}

// driverOwn tells what the PostgreSQL driver sets of its own.
func driverOwn() map[string]bool {
	p := parT{Kind: "pg", Conf: conf{User: "u", Pw: "p", Db: "d"}, Srv: accept{User: "u", Pw: "p", Dbs: []string{"d"}}}
	s := newServer(p)
	defer s.close()
	db, err := sql.Open("postgres", fmt.Sprintf("postgres://u:p@127.0.0.1:%d/d?sslmode=disable", s.lns[0].Addr().(*net.TCPAddr).Port))
	if err != nil {
		panic(err)
	}
	defer db.Close()
	if err := db.Ping(); err != nil {
		panic(err)
	}
	m := map[string]bool{}
	for _, e := range s.evs {
		if e["e"] == "set" {
			for _, kv := range e["opts"].([][2]string) {
				m[kv[0]+"="+kv[1]] = true
			}
		}
	}
	return m
}

func TestConn(t *testing.T) {
	var in struct {
		Scripts []script
		Par     int
	}
	hx.In(t, &in)
	simplelog.StdLogger = log.New(io.Discard, "", 0)
	simplelog.ErrLogger = log.New(exiting{}, "", 0)
	mysql.SetLogger(log.New(io.Discard, "", 0))
	go_ora.VerifHook = oracle
	auto := driverOwn()
	out := make([]map[string]any, len(in.Scripts))
	var wg sync.WaitGroup
	sem := make(chan bool, in.Par)
	for i := range in.Scripts {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			out[i] = in.Scripts[i].run(auto)
		}()
	}
	wg.Wait()
	ts := &hx.Traces{}
	for _, o := range out {
		ts.Add(o)
	}
	hx.OutTraces(t, ts)
}

package fakeredis

import (
	"bufio"
	"context"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type status string // +OK
type rerr string   // -ERR ...

type entry struct {
	v  any // string, []string, map[string]string, map[string]float64
	at int64
}

// Server is one Redis server. Before, if set, is called before every command is executed (a scheduling point).
type Server struct {
	mu      sync.Mutex
	db      map[string]*entry
	scripts map[string]string
	Before  func(cmd []string)
	// Fault decides what happens to a command: "" normally, "err" an error reply without execution, "drop" the connection
	// is closed without execution, "lost" it is closed after execution.
	Fault func(cmd []string) string
	Log   [][]string // commands executed, with the keys they addressed
	in    []string   // commands executed inside scripts since the last reset
	Unsup string     // something the fake does not implement
}

func New() *Server { return &Server{db: map[string]*entry{}, scripts: map[string]string{}} }

// Dial connects a client.
func (s *Server) Dial(ctx context.Context, network, addr string) (net.Conn, error) {
	a, b := net.Pipe()
	go s.serve(b)
	return a, nil
}

func (s *Server) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	var multi [][]string
	inMulti := false
	for {
		cmd, err := readCmd(r)
		if err != nil {
			return
		}
		if len(cmd) == 0 {
			continue
		}
		name := strings.ToUpper(cmd[0])
		switch {
		case name == "MULTI":
			inMulti, multi = true, nil
			io.WriteString(c, "+OK\r\n")
			continue
		case inMulti && name != "EXEC" && name != "DISCARD":
			multi = append(multi, cmd)
			io.WriteString(c, "+QUEUED\r\n")
			continue
		case name == "DISCARD":
			inMulti = false
			io.WriteString(c, "+OK\r\n")
			continue
		}
		if s.Before != nil {
			s.Before(cmd)
		}
		f := ""
		if s.Fault != nil {
			f = s.Fault(cmd)
		}
		if f == "drop" {
			return
		}
		var v any
		if f == "err" {
			v = rerr("OOM command not allowed when used memory > 'maxmemory'.")
			inMulti = false
		} else {
			s.mu.Lock()
			if name == "EXEC" {
				l := []any{}
				for _, q := range multi {
					l = append(l, s.exec(q))
				}
				v, inMulti = l, false
			} else {
				v = s.exec(cmd)
			}
			s.mu.Unlock()
		}
		if f == "lost" {
			return
		}
		var b strings.Builder
		encode(&b, v)
		if _, err := io.WriteString(c, b.String()); err != nil {
			return
		}
	}
}

func readCmd(r *bufio.Reader) ([]string, error) {
	l, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	l = strings.TrimRight(l, "\r\n")
	if !strings.HasPrefix(l, "*") {
		return strings.Fields(l), nil
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil {
		return nil, err
	}
	var out []string
	for i := 0; i < n; i++ {
		h, err := r.ReadString('\n')
		if err != nil || h[0] != '$' {
			return nil, errors.New("protocol")
		}
		k, err := strconv.Atoi(strings.TrimRight(h[1:], "\r\n"))
		if err != nil {
			return nil, err
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:k]))
	}
	return out, nil
}

func encode(b *strings.Builder, v any) {
	switch x := v.(type) {
	case nil:
		b.WriteString("$-1\r\n")
	case status:
		b.WriteString("+" + string(x) + "\r\n")
	case rerr:
		b.WriteString("-" + strings.ReplaceAll(string(x), "\n", " ") + "\r\n")
	case int64:
		fmt.Fprintf(b, ":%d\r\n", x)
	case string:
		fmt.Fprintf(b, "$%d\r\n%s\r\n", len(x), x)
	case []any:
		fmt.Fprintf(b, "*%d\r\n", len(x))
		for _, e := range x {
			encode(b, e)
		}
	default:
		panic(fmt.Sprintf("reply %T", v))
	}
}

func (s *Server) now() int64 { return time.Now().UnixMilli() }

func (s *Server) get(k string) *entry {
	e := s.db[k]
	if e != nil && e.at > 0 && s.now() > e.at {
		delete(s.db, k)
		return nil
	}
	return e
}

// Keys returns the live keys.
func (s *Server) Keys() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var l []string
	for k := range s.db {
		if s.get(k) != nil {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

func sha(x string) string { h := sha1.Sum([]byte(x)); return hex.EncodeToString(h[:]) }

const wrongType = rerr("WRONGTYPE Operation against a key holding the wrong kind of value")

func (s *Server) exec(c []string) (out any) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(rerr)
			if !ok {
				panic(r)
			}
			out = e
		}
	}()
	name := strings.ToUpper(c[0])
	a := c[1:]
	need := func(n int) {
		if len(a) < n {
			panic(rerr("ERR wrong number of arguments for '" + strings.ToLower(name) + "' command"))
		}
	}
	integer := func(x string) int64 {
		n, err := strconv.ParseInt(x, 10, 64)
		if err != nil {
			panic(rerr("ERR value is not an integer or out of range"))
		}
		return n
	}
	float := func(x string) float64 {
		n, err := strconv.ParseFloat(strings.TrimPrefix(x, "("), 64)
		if err != nil {
			panic(rerr("ERR value is not a valid float"))
		}
		return n
	}
	list := func(k string) []string {
		e := s.get(k)
		if e == nil {
			return nil
		}
		l, ok := e.v.([]string)
		if !ok {
			panic(wrongType)
		}
		return l
	}
	setList := func(k string, l []string) {
		if len(l) == 0 {
			delete(s.db, k)
			return
		}
		if e := s.get(k); e != nil {
			e.v = l
		} else {
			s.db[k] = &entry{v: l}
		}
	}
	hash := func(k string) map[string]string {
		e := s.get(k)
		if e == nil {
			return nil
		}
		h, ok := e.v.(map[string]string)
		if !ok {
			panic(wrongType)
		}
		return h
	}
	zset := func(k string) map[string]float64 {
		e := s.get(k)
		if e == nil {
			return nil
		}
		h, ok := e.v.(map[string]float64)
		if !ok {
			panic(wrongType)
		}
		return h
	}
	clean := func(k string, n int) {
		if n == 0 {
			delete(s.db, k)
		}
	}
	gets := func(k string) (string, bool) {
		e := s.get(k)
		if e == nil {
			return "", false
		}
		v, ok := e.v.(string)
		if !ok {
			panic(wrongType)
		}
		return v, true
	}
	boolean := func(b bool) any {
		if b {
			return int64(1)
		}
		return int64(0)
	}
	expire := func(ms int64) any {
		e := s.get(a[0])
		if e == nil {
			return int64(0)
		}
		if at := s.now() + ms; ms <= 0 {
			delete(s.db, a[0])
		} else {
			e.at = at
		}
		return int64(1)
	}
	incr := func(d int64) any {
		v, ok := gets(a[0])
		if !ok {
			v = "0"
		}
		n := integer(v) + d
		if e := s.get(a[0]); e != nil {
			e.v = strconv.FormatInt(n, 10)
		} else {
			s.db[a[0]] = &entry{v: strconv.FormatInt(n, 10)}
		}
		return n
	}
	switch name {
	case "PING":
		return status("PONG")
	case "ECHO":
		return a[0]
	case "SELECT", "AUTH", "CLIENT", "WATCH", "UNWATCH", "READONLY", "QUIT":
		return status("OK")
	case "FLUSHALL", "FLUSHDB":
		s.db = map[string]*entry{}
		return status("OK")
	case "TIME":
		t := time.Now()
		return []any{strconv.FormatInt(t.Unix(), 10), strconv.Itoa(t.Nanosecond() / 1000)}
	case "SCRIPT":
		need(1)
		switch strings.ToUpper(a[0]) {
		case "LOAD":
			h := sha(a[1])
			s.scripts[h] = a[1]
			return h
		case "EXISTS":
			l := []any{}
			for _, h := range a[1:] {
				_, ok := s.scripts[strings.ToLower(h)]
				l = append(l, boolean(ok))
			}
			return l
		case "FLUSH":
			s.scripts = map[string]string{}
			return status("OK")
		}
	case "EVAL", "EVALSHA":
		need(2)
		src := a[0]
		if name == "EVALSHA" {
			x, ok := s.scripts[strings.ToLower(a[0])]
			if !ok {
				return rerr("NOSCRIPT No matching script. Please use EVAL.")
			}
			src = x
		} else {
			s.scripts[sha(src)] = src
		}
		n := int(integer(a[1]))
		if n < 0 || n > len(a)-2 {
			return rerr("ERR Number of keys can't be greater than number of args")
		}
		// as in a cluster: the keys of a script are in one slot if they are hashed by a tag
		for _, k := range a[2 : 2+n] {
			if hashTag(k) != hashTag(a[2]) {
				return rerr("CROSSSLOT Keys in request don't hash to the same slot")
			}
		}
		return s.script(src, a[2:2+n], a[2+n:])
	case "EXISTS":
		n := int64(0)
		for _, k := range a {
			if s.get(k) != nil {
				n++
			}
		}
		return n
	case "DEL", "UNLINK":
		n := int64(0)
		for _, k := range a {
			if s.get(k) != nil {
				delete(s.db, k)
				n++
			}
		}
		return n
	case "TYPE":
		need(1)
		e := s.get(a[0])
		if e == nil {
			return status("none")
		}
		switch e.v.(type) {
		case string:
			return status("string")
		case []string:
			return status("list")
		case map[string]string:
			return status("hash")
		}
		return status("zset")
	case "EXPIRE":
		need(2)
		return expire(integer(a[1]) * 1000)
	case "PEXPIRE":
		need(2)
		return expire(integer(a[1]))
	case "EXPIREAT":
		need(2)
		return expire(integer(a[1])*1000 - s.now())
	case "PEXPIREAT":
		need(2)
		return expire(integer(a[1]) - s.now())
	case "PERSIST":
		need(1)
		e := s.get(a[0])
		if e == nil || e.at == 0 {
			return int64(0)
		}
		e.at = 0
		return int64(1)
	case "TTL", "PTTL":
		need(1)
		e := s.get(a[0])
		if e == nil {
			return int64(-2)
		}
		if e.at == 0 {
			return int64(-1)
		}
		ms := e.at - s.now()
		if name == "PTTL" {
			return ms
		}
		return (ms + 500) / 1000
	case "GET":
		need(1)
		v, ok := gets(a[0])
		if !ok {
			return nil
		}
		return v
	case "GETSET":
		need(2)
		v, ok := gets(a[0])
		s.db[a[0]] = &entry{v: a[1]}
		if !ok {
			return nil
		}
		return v
	case "STRLEN":
		v, _ := gets(a[0])
		return int64(len(v))
	case "APPEND":
		v, ok := gets(a[0])
		if ok {
			s.get(a[0]).v = v + a[1]
		} else {
			s.db[a[0]] = &entry{v: a[1]}
		}
		return int64(len(v) + len(a[1]))
	case "SET":
		need(2)
		at := int64(0)
		nx, xx, keep := false, false, false
		for i := 2; i < len(a); i++ {
			switch strings.ToUpper(a[i]) {
			case "EX", "PX":
				if i+1 >= len(a) {
					return rerr("ERR syntax error")
				}
				n := integer(a[i+1])
				if n <= 0 {
					return rerr("ERR invalid expire time in 'set' command")
				}
				if strings.ToUpper(a[i]) == "EX" {
					n *= 1000
				}
				at = s.now() + n
				i++
			case "NX":
				nx = true
			case "XX":
				xx = true
			case "KEEPTTL":
				keep = true
			default:
				return rerr("ERR syntax error")
			}
		}
		old := s.get(a[0])
		if nx && old != nil || xx && old == nil {
			return nil
		}
		if keep && old != nil {
			at = old.at
		}
		s.db[a[0]] = &entry{v: a[1], at: at}
		return status("OK")
	case "SETNX":
		need(2)
		if s.get(a[0]) != nil {
			return int64(0)
		}
		s.db[a[0]] = &entry{v: a[1]}
		return int64(1)
	case "SETEX", "PSETEX":
		need(3)
		n := integer(a[1])
		if n <= 0 {
			return rerr("ERR invalid expire time in '" + strings.ToLower(name) + "' command")
		}
		if name == "SETEX" {
			n *= 1000
		}
		s.db[a[0]] = &entry{v: a[2], at: s.now() + n}
		return status("OK")
	case "INCR":
		need(1)
		return incr(1)
	case "DECR":
		need(1)
		return incr(-1)
	case "INCRBY":
		need(2)
		return incr(integer(a[1]))
	case "DECRBY":
		need(2)
		return incr(-integer(a[1]))
	case "LLEN":
		need(1)
		return int64(len(list(a[0])))
	case "RPUSH", "LPUSH":
		need(2)
		l := list(a[0])
		for _, v := range a[1:] {
			if name == "RPUSH" {
				l = append(l[:len(l):len(l)], v)
			} else {
				l = append([]string{v}, l...)
			}
		}
		setList(a[0], l)
		return int64(len(l))
	case "LPOP", "RPOP":
		need(1)
		l := list(a[0])
		if len(l) == 0 {
			return nil
		}
		if name == "LPOP" {
			setList(a[0], l[1:])
			return l[0]
		}
		setList(a[0], l[:len(l)-1])
		return l[len(l)-1]
	case "LRANGE", "LTRIM":
		need(3)
		l := list(a[0])
		i, j := clip(integer(a[1]), integer(a[2]), len(l))
		if name == "LTRIM" {
			setList(a[0], l[i:j])
			return status("OK")
		}
		out := []any{}
		for _, v := range l[i:j] {
			out = append(out, v)
		}
		return out
	case "LINDEX":
		need(2)
		l, i := list(a[0]), int(integer(a[1]))
		if i < 0 {
			i += len(l)
		}
		if i < 0 || i >= len(l) {
			return nil
		}
		return l[i]
	case "LSET":
		need(3)
		l, i := list(a[0]), int(integer(a[1]))
		if i < 0 {
			i += len(l)
		}
		if i < 0 || i >= len(l) {
			return rerr("ERR index out of range")
		}
		l = append([]string{}, l...)
		l[i] = a[2]
		setList(a[0], l)
		return status("OK")
	case "HSET", "HMSET":
		need(3)
		h := hash(a[0])
		if h == nil {
			h = map[string]string{}
			s.db[a[0]] = &entry{v: h}
		}
		n := int64(0)
		for i := 1; i+1 < len(a); i += 2 {
			if _, ok := h[a[i]]; !ok {
				n++
			}
			h[a[i]] = a[i+1]
		}
		if name == "HMSET" {
			return status("OK")
		}
		return n
	case "HGET":
		need(2)
		if v, ok := hash(a[0])[a[1]]; ok {
			return v
		}
		return nil
	case "HMGET":
		out := []any{}
		h := hash(a[0])
		for _, f := range a[1:] {
			if v, ok := h[f]; ok {
				out = append(out, v)
			} else {
				out = append(out, nil)
			}
		}
		return out
	case "HGETALL":
		out := []any{}
		for k, v := range hash(a[0]) {
			out = append(out, k, v)
		}
		return out
	case "HLEN":
		return int64(len(hash(a[0])))
	case "HEXISTS":
		_, ok := hash(a[0])[a[1]]
		return boolean(ok)
	case "HDEL":
		h := hash(a[0])
		n := int64(0)
		for _, f := range a[1:] {
			if _, ok := h[f]; ok {
				delete(h, f)
				n++
			}
		}
		clean(a[0], len(h))
		return n
	case "HINCRBY":
		need(3)
		h := hash(a[0])
		if h == nil {
			h = map[string]string{}
			s.db[a[0]] = &entry{v: h}
		}
		o := h[a[1]]
		if o == "" {
			o = "0"
		}
		n := integer(o) + integer(a[2])
		h[a[1]] = strconv.FormatInt(n, 10)
		return n
	case "ZADD":
		need(3)
		z := zset(a[0])
		if z == nil {
			z = map[string]float64{}
			s.db[a[0]] = &entry{v: z}
		}
		n := int64(0)
		for i := 1; i+1 < len(a); i += 2 {
			if _, ok := z[a[i+1]]; !ok {
				n++
			}
			z[a[i+1]] = float(a[i])
		}
		return n
	case "ZCARD":
		return int64(len(zset(a[0])))
	case "ZSCORE":
		if v, ok := zset(a[0])[a[1]]; ok {
			return numStr(v)
		}
		return nil
	case "ZREM":
		z := zset(a[0])
		n := int64(0)
		for _, f := range a[1:] {
			if _, ok := z[f]; ok {
				delete(z, f)
				n++
			}
		}
		clean(a[0], len(z))
		return n
	case "ZREMRANGEBYSCORE", "ZCOUNT", "ZRANGEBYSCORE":
		need(3)
		z := zset(a[0])
		out := []any{}
		for _, m := range zsorted(z) {
			if zin(z[m], a[1], true, float) && zin(z[m], a[2], false, float) {
				out = append(out, m)
				if len(a) > 3 && strings.ToUpper(a[3]) == "WITHSCORES" {
					out = append(out, numStr(z[m]))
				}
			}
		}
		if name == "ZRANGEBYSCORE" {
			return out
		}
		if name == "ZREMRANGEBYSCORE" {
			for _, m := range out {
				delete(z, m.(string))
			}
			clean(a[0], len(z))
		}
		return int64(len(out))
	case "ZRANGE", "ZREMRANGEBYRANK":
		need(3)
		z := zset(a[0])
		l := zsorted(z)
		i, j := clip(integer(a[1]), integer(a[2]), len(l))
		out := []any{}
		for _, m := range l[i:j] {
			out = append(out, m)
			if len(a) > 3 {
				out = append(out, numStr(z[m]))
			}
		}
		if name == "ZRANGE" {
			return out
		}
		for _, m := range l[i:j] {
			delete(z, m)
		}
		clean(a[0], len(z))
		return int64(j - i)
	}
	s.Unsup = "command " + name
	return rerr("ERR unknown command '" + c[0] + "'")
}

// Untagged returns the keys a command addresses that are not hashed by the tag.
func Untagged(cmd []string, tag string) []string {
	var ks []string
	switch n := strings.ToUpper(cmd[0]); n {
	case "EVAL", "EVALSHA":
		k, _ := strconv.Atoi(cmd[2])
		ks = cmd[3 : 3+k]
	case "SCRIPT", "PING", "SELECT", "AUTH", "CLIENT", "EXEC", "TIME", "UNWATCH":
	default:
		if len(cmd) > 1 {
			ks = cmd[1:2]
		}
	}
	var out []string
	for _, k := range ks {
		if hashTag(k) != tag {
			out = append(out, k)
		}
	}
	return out
}

func hashTag(k string) string {
	if i := strings.IndexByte(k, '{'); i >= 0 {
		if j := strings.IndexByte(k[i+1:], '}'); j > 0 {
			return k[i+1 : i+1+j]
		}
	}
	return ""
}

func zsorted(z map[string]float64) []string {
	var l []string
	for m := range z {
		l = append(l, m)
	}
	sort.Slice(l, func(i, j int) bool { return z[l[i]] < z[l[j]] || z[l[i]] == z[l[j]] && l[i] < l[j] })
	return l
}

func zin(v float64, lim string, low bool, float func(string) float64) bool {
	switch strings.ToLower(lim) {
	case "-inf":
		return low
	case "+inf", "inf":
		return !low
	}
	x := float(lim)
	open := strings.HasPrefix(lim, "(")
	if low {
		return v > x || v == x && !open
	}
	return v < x || v == x && !open
}

func clip(i, j int64, n int) (int, int) {
	if i < 0 {
		i = max(i+int64(n), 0)
	}
	if j < 0 {
		j += int64(n)
	}
	if j >= int64(n) {
		j = int64(n) - 1
	}
	if i > j {
		return 0, 0
	}
	return int(i), int(j) + 1
}

func (s *Server) script(src string, keys, argv []string) any {
	g := globals()
	tb := func(l []string) *table {
		t := &table{}
		for i, x := range l {
			t.set(float64(i+1), x)
		}
		return t
	}
	g.def("KEYS", tb(keys))
	g.def("ARGV", tb(argv))
	do := func(args []any) any {
		var c []string
		for _, x := range args {
			switch v := x.(type) {
			case string:
				c = append(c, v)
			case float64:
				if v == math.Trunc(v) && math.Abs(v) < 1e17 {
					c = append(c, strconv.FormatInt(int64(v), 10))
				} else {
					c = append(c, strconv.FormatFloat(v, 'g', 17, 64))
				}
			default:
				return rerr("ERR Lua redis() command arguments must be strings or integers")
			}
		}
		if len(c) == 0 {
			return rerr("ERR Please specify at least one argument for redis.call()")
		}
		s.in = append(s.in, strings.Join(c, " "))
		return s.exec(c)
	}
	redis := &table{}
	redis.set("call", fnv(func(a []any) any {
		v := do(a)
		if e, ok := v.(rerr); ok {
			panic(luaErr{string(e)})
		}
		return toLua(v)
	}))
	redis.set("pcall", fnv(func(a []any) any { return toLua(do(a)) }))
	redis.set("sha1hex", fnv(func(a []any) any { return sha(str(arg(a, 0))) }))
	redis.set("status_reply", fnv(func(a []any) any { t := &table{}; t.set("ok", arg(a, 0)); return t }))
	redis.set("error_reply", fnv(func(a []any) any { t := &table{}; t.set("err", arg(a, 0)); return t }))
	redis.set("replicate_commands", fnv(func(a []any) any { return true }))
	redis.set("log", fnv(func(a []any) any { return nil }))
	g.def("redis", redis)
	v, err := runScript(src, g)
	if err != nil {
		return rerr("ERR Error running script: " + toString(err))
	}
	return fromLua(v)
}

func toLua(v any) any {
	switch x := v.(type) {
	case nil:
		return false
	case int64:
		return float64(x)
	case status:
		t := &table{}
		t.set("ok", string(x))
		return t
	case rerr:
		t := &table{}
		t.set("err", string(x))
		return t
	case []any:
		t := &table{}
		for i, e := range x {
			t.set(float64(i+1), toLua(e))
		}
		return t
	}
	return v
}

func fromLua(v any) any {
	switch x := v.(type) {
	case nil:
		return nil
	case bool:
		if x {
			return int64(1)
		}
		return nil
	case float64:
		return int64(x)
	case *table:
		if e := x.get("err"); e != nil {
			return rerr(toString(e))
		}
		if o := x.get("ok"); o != nil {
			return status(toString(o))
		}
		l := []any{}
		for _, e := range x.arr {
			if e == nil {
				break
			}
			l = append(l, fromLua(e))
		}
		return l
	case string:
		return x
	}
	return nil
}

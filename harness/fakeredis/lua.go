// Package fakeredis is an in-process Redis server (strings, lists, hashes, sorted sets, expiry, scripts) that
// speaks RESP over net.Pipe and takes its time from time.Now, so that it runs inside a synctest bubble.
package fakeredis

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// A small interpreter of the part of Lua 5.1 that Redis scripts use. Values are nil, bool, float64, string,
// *table and *function.

type table struct {
	arr []any // 1..n
	m   map[any]any
}

func (t *table) get(k any) any {
	if f, ok := k.(float64); ok && f == math.Trunc(f) && f >= 1 && int(f) <= len(t.arr) {
		return t.arr[int(f)-1]
	}
	return t.m[k]
}

func (t *table) set(k, v any) {
	if f, ok := k.(float64); ok && f == math.Trunc(f) && f >= 1 {
		i := int(f)
		if i <= len(t.arr) {
			t.arr[i-1] = v
			if v == nil && i == len(t.arr) {
				for len(t.arr) > 0 && t.arr[len(t.arr)-1] == nil {
					t.arr = t.arr[:len(t.arr)-1]
				}
			}
			return
		}
		if i == len(t.arr)+1 && v != nil {
			t.arr = append(t.arr, v)
			for {
				n := float64(len(t.arr) + 1)
				x, ok := t.m[n]
				if !ok {
					return
				}
				delete(t.m, n)
				t.arr = append(t.arr, x)
			}
		}
	}
	if t.m == nil {
		t.m = map[any]any{}
	}
	if v == nil {
		delete(t.m, k)
	} else {
		t.m[k] = v
	}
}

type function struct {
	native func(args []any) []any
	params []string
	vararg bool
	body   []stmt
	env    *scope
}

type luaErr struct{ v any }

func fail(f string, a ...any) { panic(luaErr{fmt.Sprintf(f, a...)}) }

type scope struct {
	vars map[string]*any
	up   *scope
}

func (s *scope) find(n string) *any {
	for ; s != nil; s = s.up {
		if p, ok := s.vars[n]; ok {
			return p
		}
	}
	return nil
}

func (s *scope) def(n string, v any) {
	x := v
	s.vars[n] = &x
}

func sub(s *scope) *scope { return &scope{map[string]*any{}, s} }

// ---- lexer ----

type tok struct {
	k string // "name", "num", "str", "op" (also keywords), "eof"
	s string
	n float64
}

var keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("and break do else elseif end false for function if in local nil not or repeat return then true until while") {
		keywords[k] = true
	}
}

func longBracket(s string, i int) (string, int, bool) {
	j := i + 1
	for j < len(s) && s[j] == '=' {
		j++
	}
	if j >= len(s) || s[j] != '[' {
		return "", 0, false
	}
	cl := "]" + strings.Repeat("=", j-i-1) + "]"
	e := strings.Index(s[j+1:], cl)
	if e < 0 {
		fail("unfinished long string")
	}
	b := s[j+1 : j+1+e]
	b = strings.TrimPrefix(b, "\r\n")
	b = strings.TrimPrefix(b, "\n")
	return b, j + 1 + e + len(cl), true
}

func lex(s string) []tok {
	var out []tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "--"):
			i += 2
			if i < len(s) && s[i] == '[' {
				if _, e, ok := longBracket(s, i); ok {
					i = e
					continue
				}
			}
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			w := s[i:j]
			if keywords[w] {
				out = append(out, tok{k: "op", s: w})
			} else {
				out = append(out, tok{k: "name", s: w})
			}
			i = j
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			j := i
			for j < len(s) && (s[j] == '.' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F' || s[j] == 'x' || s[j] == 'X' ||
				(s[j] == '-' || s[j] == '+') && (s[j-1] == 'e' || s[j-1] == 'E')) {
				j++
			}
			n, ok := toNum(s[i:j])
			if !ok {
				fail("malformed number %s", s[i:j])
			}
			out = append(out, tok{k: "num", n: n})
			i = j
		case c == '"' || c == '\'':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(s) || s[j] == '\n' {
					fail("unfinished string")
				}
				if s[j] == c {
					break
				}
				if s[j] != '\\' {
					b.WriteByte(s[j])
					j++
					continue
				}
				j++
				switch s[j] {
				case 'n':
					b.WriteByte('\n')
				case 't':
					b.WriteByte('\t')
				case 'r':
					b.WriteByte('\r')
				default:
					if s[j] >= '0' && s[j] <= '9' {
						n := 0
						k := j
						for k < len(s) && k < j+3 && s[k] >= '0' && s[k] <= '9' {
							n = n*10 + int(s[k]-'0')
							k++
						}
						b.WriteByte(byte(n))
						j = k - 1
					} else {
						b.WriteByte(s[j])
					}
				}
				j++
			}
			out = append(out, tok{k: "str", s: b.String()})
			i = j + 1
		default:
			if c == '[' {
				if b, e, ok := longBracket(s, i); ok {
					out = append(out, tok{k: "str", s: b})
					i = e
					continue
				}
			}
			op := ""
			for _, o := range []string{"...", "..", "==", "~=", "<=", ">="} {
				if strings.HasPrefix(s[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				if !strings.ContainsRune("+-*/%^#<>=(){}[];:,.", rune(c)) {
					fail("unexpected character %q", c)
				}
				op = string(c)
			}
			out = append(out, tok{k: "op", s: op})
			i += len(op)
		}
	}
	return append(out, tok{k: "eof"})
}

// ---- parser: expressions and statements are closures ----

type expr func(s *scope) []any // single-valued expressions return one value
type brk struct{}
type ret struct{ v []any }
type stmt func(s *scope) any // nil, brk or ret

type lvalue struct {
	name string
	obj  expr
	key  expr
}

type parser struct {
	t []tok
	i int
}

func (p *parser) is(s string) bool { return p.t[p.i].k == "op" && p.t[p.i].s == s }
func (p *parser) acc(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) need(s string) {
	if !p.acc(s) {
		fail("%s expected near %q", s, p.t[p.i].s)
	}
}
func (p *parser) name() string {
	t := p.t[p.i]
	if t.k != "name" {
		fail("name expected near %q", t.s)
	}
	p.i++
	return t.s
}

func one(v []any) any {
	if len(v) == 0 {
		return nil
	}
	return v[0]
}

func truth(v any) bool { return v != nil && v != false }

func (p *parser) block(ends ...string) []stmt {
	var b []stmt
	for {
		for p.acc(";") {
		}
		if p.t[p.i].k == "eof" {
			return b
		}
		for _, e := range ends {
			if p.is(e) {
				return b
			}
		}
		if p.acc("return") {
			var es []expr
			if p.t[p.i].k != "eof" && !p.is(";") && !p.is("end") && !p.is("else") && !p.is("elseif") && !p.is("until") {
				es = p.exprs()
			}
			p.acc(";")
			b = append(b, func(s *scope) any { return ret{eval(es, s)} })
			continue
		}
		b = append(b, p.statement())
	}
}

func run(b []stmt, s *scope) any {
	for _, st := range b {
		if r := st(s); r != nil {
			return r
		}
	}
	return nil
}

func (p *parser) statement() stmt {
	switch {
	case p.acc("break"):
		return func(*scope) any { return brk{} }
	case p.acc("do"):
		b := p.block("end")
		p.need("end")
		return func(s *scope) any { return run(b, sub(s)) }
	case p.acc("while"):
		c := p.expr(0)
		p.need("do")
		b := p.block("end")
		p.need("end")
		return func(s *scope) any {
			for n := 0; truth(one(c(s))); n++ {
				if n > 100000 {
					fail("script does not end")
				}
				switch r := run(b, sub(s)).(type) {
				case brk:
					return nil
				case ret:
					return r
				}
			}
			return nil
		}
	case p.acc("repeat"):
		b := p.block("until")
		p.need("until")
		c := p.expr(0)
		return func(s *scope) any {
			for n := 0; ; n++ {
				if n > 100000 {
					fail("script does not end")
				}
				x := sub(s)
				switch r := run(b, x).(type) {
				case brk:
					return nil
				case ret:
					return r
				}
				if truth(one(c(x))) {
					return nil
				}
			}
		}
	case p.acc("if"):
		type arm struct {
			c expr
			b []stmt
		}
		var arms []arm
		c := p.expr(0)
		p.need("then")
		arms = append(arms, arm{c, p.block("elseif", "else", "end")})
		var els []stmt
		for {
			if p.acc("elseif") {
				c := p.expr(0)
				p.need("then")
				arms = append(arms, arm{c, p.block("elseif", "else", "end")})
			} else if p.acc("else") {
				els = p.block("end")
				p.need("end")
				break
			} else {
				p.need("end")
				break
			}
		}
		return func(s *scope) any {
			for _, a := range arms {
				if truth(one(a.c(s))) {
					return run(a.b, sub(s))
				}
			}
			return run(els, sub(s))
		}
	case p.acc("for"):
		n := p.name()
		if p.acc("=") {
			a := p.expr(0)
			p.need(",")
			b := p.expr(0)
			st := expr(func(*scope) []any { return []any{1.0} })
			if p.acc(",") {
				st = p.expr(0)
			}
			p.need("do")
			body := p.block("end")
			p.need("end")
			return func(s *scope) any {
				x, y, z := num(one(a(s))), num(one(b(s))), num(one(st(s)))
				for ; z > 0 && x <= y || z < 0 && x >= y; x += z {
					c := sub(s)
					c.def(n, x)
					switch r := run(body, c).(type) {
					case brk:
						return nil
					case ret:
						return r
					}
				}
				return nil
			}
		}
		names := []string{n}
		for p.acc(",") {
			names = append(names, p.name())
		}
		p.need("in")
		es := p.exprs()
		p.need("do")
		body := p.block("end")
		p.need("end")
		return func(s *scope) any {
			v := eval(es, s)
			for len(v) < 3 {
				v = append(v, nil)
			}
			for {
				r := call(v[0], []any{v[1], v[2]})
				if one(r) == nil {
					return nil
				}
				v[2] = r[0]
				c := sub(s)
				for i, n := range names {
					if i < len(r) {
						c.def(n, r[i])
					} else {
						c.def(n, nil)
					}
				}
				switch q := run(body, c).(type) {
				case brk:
					return nil
				case ret:
					return q
				}
			}
		}
	case p.acc("function"):
		lv := lvalue{name: p.name()}
		for p.acc(".") {
			prev, k := lv, p.name()
			lv = lvalue{obj: prev.get, key: constant(k)}
		}
		f := p.funcBody()
		return func(s *scope) any { lv.set(s, one(f(s))); return nil }
	case p.acc("local"):
		if p.acc("function") {
			n := p.name()
			f := p.funcBody()
			return func(s *scope) any {
				s.def(n, nil)
				*s.vars[n] = one(f(s))
				return nil
			}
		}
		names := []string{p.name()}
		for p.acc(",") {
			names = append(names, p.name())
		}
		var es []expr
		if p.acc("=") {
			es = p.exprs()
		}
		return func(s *scope) any {
			v := eval(es, s)
			for i, n := range names {
				if i < len(v) {
					s.def(n, v[i])
				} else {
					s.def(n, nil)
				}
			}
			return nil
		}
	}
	e, lv, isCall := p.suffixed()
	if isCall && !p.is("=") && !p.is(",") {
		return func(s *scope) any { e(s); return nil }
	}
	lvs := []lvalue{lv}
	for p.acc(",") {
		_, l, _ := p.suffixed()
		lvs = append(lvs, l)
	}
	p.need("=")
	es := p.exprs()
	return func(s *scope) any {
		v := eval(es, s)
		for i, l := range lvs {
			if i < len(v) {
				l.set(s, v[i])
			} else {
				l.set(s, nil)
			}
		}
		return nil
	}
}

func constant(v any) expr { return func(*scope) []any { return []any{v} } }

func (l lvalue) get(s *scope) []any {
	if l.obj == nil {
		if p := s.find(l.name); p != nil {
			return []any{*p}
		}
		fail("Script attempted to access nonexistent global variable '%s'", l.name)
	}
	return []any{index(one(l.obj(s)), one(l.key(s)))}
}

func (l lvalue) set(s *scope, v any) {
	if l.obj == nil {
		if p := s.find(l.name); p != nil {
			*p = v
			return
		}
		fail("Script attempted to create global variable '%s'", l.name)
	}
	t, ok := one(l.obj(s)).(*table)
	if !ok {
		fail("attempt to index a non-table value")
	}
	t.set(one(l.key(s)), v)
}

func index(o, k any) any {
	switch t := o.(type) {
	case *table:
		return t.get(k)
	case string:
		return strlib.get(k)
	}
	fail("attempt to index a %s value", typeName(o))
	return nil
}

func (p *parser) exprs() []expr {
	es := []expr{p.expr(0)}
	for p.acc(",") {
		es = append(es, p.expr(0))
	}
	return es
}

func eval(es []expr, s *scope) []any {
	var out []any
	for i, e := range es {
		v := e(s)
		if i < len(es)-1 {
			out = append(out, one(v))
		} else {
			out = append(out, v...)
		}
	}
	return out
}

func (p *parser) suffixed() (expr, lvalue, bool) {
	var lv lvalue
	var e expr
	isCall := false
	if p.acc("(") {
		in := p.expr(0)
		p.need(")")
		e = func(s *scope) []any { return []any{one(in(s))} }
	} else {
		lv = lvalue{name: p.name()}
		e = lv.get
	}
	for {
		obj := e
		switch {
		case p.acc("."):
			lv = lvalue{obj: obj, key: constant(p.name())}
			e, isCall = lv.get, false
		case p.acc("["):
			k := p.expr(0)
			p.need("]")
			lv = lvalue{obj: obj, key: k}
			e, isCall = lv.get, false
		case p.is("(") || p.is("{") || p.t[p.i].k == "str":
			args := p.args()
			e, isCall = func(s *scope) []any { f := one(obj(s)); return call(f, eval(args, s)) }, true
		case p.acc(":"):
			n := p.name()
			args := p.args()
			e, isCall = func(s *scope) []any {
				o := one(obj(s))
				return call(index(o, n), append([]any{o}, eval(args, s)...))
			}, true
		default:
			return e, lv, isCall
		}
	}
}

func (p *parser) args() []expr {
	if p.t[p.i].k == "str" {
		p.i++
		return []expr{constant(p.t[p.i-1].s)}
	}
	if p.is("{") {
		return []expr{p.primary()}
	}
	p.need("(")
	var a []expr
	if !p.is(")") {
		a = p.exprs()
	}
	p.need(")")
	return a
}

func (p *parser) funcBody() expr {
	p.need("(")
	f := function{}
	for !p.is(")") {
		if p.acc("...") {
			f.vararg = true
			break
		}
		f.params = append(f.params, p.name())
		if !p.acc(",") {
			break
		}
	}
	p.need(")")
	f.body = p.block("end")
	p.need("end")
	return func(s *scope) []any {
		g := f
		g.env = s
		return []any{&g}
	}
}

func (p *parser) primary() expr {
	t := p.t[p.i]
	switch t.k {
	case "num":
		p.i++
		return constant(t.n)
	case "str":
		p.i++
		return constant(t.s)
	}
	switch {
	case p.acc("nil"):
		return constant(nil)
	case p.acc("true"):
		return constant(true)
	case p.acc("false"):
		return constant(false)
	case p.acc("..."):
		return func(s *scope) []any {
			if v := s.find("..."); v != nil {
				return (*v).([]any)
			}
			return nil
		}
	case p.acc("function"):
		return p.funcBody()
	case p.acc("{"):
		type item struct{ k, v expr }
		var its []item
		for !p.is("}") {
			if p.acc("[") {
				k := p.expr(0)
				p.need("]")
				p.need("=")
				its = append(its, item{k, p.expr(0)})
			} else if p.t[p.i].k == "name" && p.t[p.i+1].k == "op" && p.t[p.i+1].s == "=" {
				k := p.name()
				p.need("=")
				its = append(its, item{constant(k), p.expr(0)})
			} else {
				its = append(its, item{nil, p.expr(0)})
			}
			if !p.acc(",") && !p.acc(";") {
				break
			}
		}
		p.need("}")
		return func(s *scope) []any {
			t := &table{}
			n := 0
			for i, it := range its {
				if it.k != nil {
					t.set(one(it.k(s)), one(it.v(s)))
					continue
				}
				v := it.v(s)
				if i < len(its)-1 {
					v = []any{one(v)}
				}
				for _, x := range v {
					n++
					t.set(float64(n), x)
				}
			}
			return []any{t}
		}
	}
	e, _, _ := p.suffixed()
	return e
}

var prec = map[string][2]int{"or": {1, 1}, "and": {2, 2}, "<": {3, 3}, ">": {3, 3}, "<=": {3, 3}, ">=": {3, 3}, "~=": {3, 3}, "==": {3, 3}, "..": {5, 4},
	"+": {6, 6}, "-": {6, 6}, "*": {7, 7}, "/": {7, 7}, "%": {7, 7}, "^": {10, 9}}

func (p *parser) expr(min int) expr {
	var l expr
	switch {
	case p.acc("not"):
		x := p.expr(8)
		l = func(s *scope) []any { return []any{!truth(one(x(s)))} }
	case p.acc("-"):
		x := p.expr(8)
		l = func(s *scope) []any { return []any{-num(one(x(s)))} }
	case p.acc("#"):
		x := p.expr(8)
		l = func(s *scope) []any {
			switch v := one(x(s)).(type) {
			case string:
				return []any{float64(len(v))}
			case *table:
				return []any{float64(len(v.arr))}
			}
			fail("attempt to get length of a wrong value")
			return nil
		}
	default:
		l = p.primary()
	}
	for {
		t := p.t[p.i]
		pr, ok := prec[t.s]
		if t.k != "op" || !ok || pr[0] <= min {
			return l
		}
		p.i++
		a, b, op := l, p.expr(pr[1]), t.s
		l = func(s *scope) []any {
			x := one(a(s))
			switch op {
			case "and":
				if !truth(x) {
					return []any{x}
				}
				return []any{one(b(s))}
			case "or":
				if truth(x) {
					return []any{x}
				}
				return []any{one(b(s))}
			}
			return []any{binop(op, x, one(b(s)))}
		}
	}
}

func binop(op string, x, y any) any {
	switch op {
	case "==":
		return x == y
	case "~=":
		return x != y
	case "..":
		return str(x) + str(y)
	case "<", ">", "<=", ">=":
		if op == ">" || op == ">=" {
			x, y = y, x
			op = map[string]string{">": "<", ">=": "<="}[op]
		}
		if a, ok := x.(string); ok {
			b, ok := y.(string)
			if !ok {
				fail("attempt to compare %s with %s", typeName(x), typeName(y))
			}
			if op == "<" {
				return a < b
			}
			return a <= b
		}
		a, ok1 := x.(float64)
		b, ok2 := y.(float64)
		if !ok1 || !ok2 {
			fail("attempt to compare %s with %s", typeName(x), typeName(y))
		}
		if op == "<" {
			return a < b
		}
		return a <= b
	}
	a, b := num(x), num(y)
	switch op {
	case "+":
		return a + b
	case "-":
		return a - b
	case "*":
		return a * b
	case "/":
		return a / b
	case "%":
		return a - math.Floor(a/b)*b
	case "^":
		return math.Pow(a, b)
	}
	panic("op")
}

func call(f any, args []any) []any {
	fn, ok := f.(*function)
	if !ok {
		fail("attempt to call a %s value", typeName(f))
	}
	if fn.native != nil {
		return fn.native(args)
	}
	s := sub(fn.env)
	for i, n := range fn.params {
		if i < len(args) {
			s.def(n, args[i])
		} else {
			s.def(n, nil)
		}
	}
	if fn.vararg {
		var rest []any
		if len(args) > len(fn.params) {
			rest = args[len(fn.params):]
		}
		s.def("...", rest)
	}
	if r, ok := run(fn.body, s).(ret); ok {
		return r.v
	}
	return nil
}

// ---- values ----

func typeName(v any) string {
	switch v.(type) {
	case nil:
		return "nil"
	case bool:
		return "boolean"
	case float64:
		return "number"
	case string:
		return "string"
	case *table:
		return "table"
	}
	return "function"
}

func toNum(s string) (float64, bool) {
	s = strings.TrimSpace(s)
	if n, err := strconv.ParseFloat(s, 64); err == nil && !strings.ContainsAny(s, "_pP") && !strings.ContainsAny(strings.ToLower(s), "in") {
		return n, true
	}
	if n, err := strconv.ParseInt(s, 0, 64); err == nil && strings.Contains(strings.ToLower(s), "0x") {
		return float64(n), true
	}
	return 0, false
}

func num(v any) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case string:
		if n, ok := toNum(x); ok {
			return n
		}
	}
	fail("attempt to perform arithmetic on a %s value", typeName(v))
	return 0
}

func numStr(f float64) string {
	if f == math.Trunc(f) && math.Abs(f) < 1e15 {
		return strconv.FormatInt(int64(f), 10)
	}
	return strconv.FormatFloat(f, 'g', 14, 64)
}

func str(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case float64:
		return numStr(x)
	}
	fail("attempt to concatenate a %s value", typeName(v))
	return ""
}

func toString(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case string:
		return x
	case float64:
		return numStr(x)
	}
	return typeName(v)
}

func fnv(f func(a []any) any) *function {
	return &function{native: func(a []any) []any { return []any{f(a)} }}
}

func lib(m map[string]func(a []any) any) *table {
	t := &table{}
	for k, f := range m {
		t.set(k, fnv(f))
	}
	return t
}

func arg(a []any, i int) any {
	if i < len(a) {
		return a[i]
	}
	return nil
}

func sub1(a []any) any {
	s := str(arg(a, 0))
	i, j := int(num(arg(a, 1))), -1
	if len(a) > 2 {
		j = int(num(a[2]))
	}
	if i < 0 {
		i = max(len(s)+i+1, 1)
	} else if i == 0 {
		i = 1
	}
	if j < 0 {
		j = len(s) + j + 1
	} else if j > len(s) {
		j = len(s)
	}
	if i > j {
		return ""
	}
	return s[i-1 : j]
}

func format(a []any) any {
	f := str(arg(a, 0))
	var b strings.Builder
	n := 1
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			b.WriteByte(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("0123456789.-+ #", f[j]) >= 0 {
			j++
		}
		v := f[i : j+1]
		switch f[j] {
		case '%':
			b.WriteByte('%')
			n--
		case 'd', 'x', 'X', 'c':
			fmt.Fprintf(&b, v, int64(num(arg(a, n))))
		case 's':
			fmt.Fprintf(&b, v, toString(arg(a, n)))
		default:
			fmt.Fprintf(&b, v, num(arg(a, n)))
		}
		n++
		i = j
	}
	return b.String()
}

var strlib *table

func init() {
	strlib = lib(map[string]func(a []any) any{
		"len":    func(a []any) any { return float64(len(str(arg(a, 0)))) },
		"sub":    sub1,
		"lower":  func(a []any) any { return strings.ToLower(str(arg(a, 0))) },
		"upper":  func(a []any) any { return strings.ToUpper(str(arg(a, 0))) },
		"rep":    func(a []any) any { return strings.Repeat(str(arg(a, 0)), int(num(arg(a, 1)))) },
		"format": format,
		"byte":   func(a []any) any { return float64(str(arg(a, 0))[0]) },
	})
}

func globals() *scope {
	g := &scope{map[string]*any{}, nil}
	for n, f := range map[string]func(a []any) any{
		"tonumber": func(a []any) any {
			switch x := arg(a, 0).(type) {
			case float64:
				return x
			case string:
				if n, ok := toNum(x); ok {
					return n
				}
			}
			return nil
		},
		"tostring": func(a []any) any { return toString(arg(a, 0)) },
		"type":     func(a []any) any { return typeName(arg(a, 0)) },
		"error":    func(a []any) any { panic(luaErr{arg(a, 0)}) },
	} {
		g.def(n, fnv(f))
	}
	g.def("assert", &function{native: func(a []any) []any {
		if !truth(arg(a, 0)) {
			panic(luaErr{arg(a, 1)})
		}
		return a
	}})
	unpack := &function{native: func(a []any) []any { return append([]any{}, arg(a, 0).(*table).arr...) }}
	g.def("unpack", unpack)
	next := &function{native: func(a []any) []any {
		t := arg(a, 0).(*table)
		i := 0
		k := arg(a, 1)
		var ks []any
		for j := range t.arr {
			ks = append(ks, float64(j+1))
		}
		for x := range t.m {
			ks = append(ks, x)
		}
		if k != nil {
			for i < len(ks) && ks[i] != k {
				i++
			}
			i++
		}
		if i >= len(ks) {
			return []any{nil}
		}
		return []any{ks[i], t.get(ks[i])}
	}}
	g.def("next", next)
	g.def("pairs", &function{native: func(a []any) []any { return []any{next, arg(a, 0), nil} }})
	iter := &function{native: func(a []any) []any {
		n := num(arg(a, 1)) + 1
		v := arg(a, 0).(*table).get(n)
		if v == nil {
			return []any{nil}
		}
		return []any{n, v}
	}}
	g.def("ipairs", &function{native: func(a []any) []any { return []any{iter, arg(a, 0), 0.0} }})
	g.def("pcall", &function{native: func(a []any) (out []any) {
		defer func() {
			if r := recover(); r != nil {
				e, ok := r.(luaErr)
				if !ok {
					panic(r)
				}
				out = []any{false, e.v}
			}
		}()
		return append([]any{true}, call(a[0], a[1:])...)
	}})
	g.def("string", strlib)
	tl := func(a []any) *table {
		t, ok := arg(a, 0).(*table)
		if !ok {
			fail("bad argument (table expected, got %s)", typeName(arg(a, 0)))
		}
		return t
	}
	g.def("table", lib(map[string]func(a []any) any{
		"getn": func(a []any) any { return float64(len(tl(a).arr)) },
		"maxn": func(a []any) any { return float64(len(tl(a).arr)) },
		"insert": func(a []any) any {
			t := tl(a)
			if len(a) == 2 {
				t.set(float64(len(t.arr)+1), a[1])
			} else {
				i := int(num(a[1]))
				t.arr = append(t.arr, nil)
				copy(t.arr[i:], t.arr[i-1:])
				t.arr[i-1] = a[2]
			}
			return nil
		},
		"remove": func(a []any) any {
			t := tl(a)
			if len(t.arr) == 0 {
				return nil
			}
			i := len(t.arr)
			if len(a) > 1 {
				i = int(num(a[1]))
			}
			v := t.arr[i-1]
			t.arr = append(t.arr[:i-1], t.arr[i:]...)
			return v
		},
		"concat": func(a []any) any {
			var l []string
			for _, x := range tl(a).arr {
				l = append(l, str(x))
			}
			sep := ""
			if len(a) > 1 {
				sep = str(a[1])
			}
			return strings.Join(l, sep)
		},
	}))
	m := lib(map[string]func(a []any) any{
		"floor": func(a []any) any { return math.Floor(num(arg(a, 0))) },
		"ceil":  func(a []any) any { return math.Ceil(num(arg(a, 0))) },
		"abs":   func(a []any) any { return math.Abs(num(arg(a, 0))) },
		"max": func(a []any) any {
			r := num(arg(a, 0))
			for _, x := range a {
				r = math.Max(r, num(x))
			}
			return r
		},
		"min": func(a []any) any {
			r := num(arg(a, 0))
			for _, x := range a {
				r = math.Min(r, num(x))
			}
			return r
		},
	})
	m.set("huge", math.Inf(1))
	g.def("math", m)
	return g
}

// runScript parses and runs a chunk.
func runScript(src string, g *scope) (out any, err any) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(luaErr)
			if !ok {
				panic(r)
			}
			err = e.v
		}
	}()
	p := &parser{t: lex(src)}
	b := p.block()
	if p.t[p.i].k != "eof" {
		fail("unexpected %q", p.t[p.i].s)
	}
	if r, ok := run(b, sub(g)).(ret); ok {
		return one(r.v), nil
	}
	return nil, nil
}

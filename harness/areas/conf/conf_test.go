package conf

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
	"unsafe"

	"github.com/chanjarster/gears/conf"
	"verif/hx"
)

type In struct {
	Scripts []Script
	Shard   int
}

// Script: operations as in the specification; v is the value, t its text for the source.
type Script struct {
	Par hx.Op
	Ops []hx.Op
}

type (
	nstring string
	nint    int
	nbool   bool
	ndur    time.Duration
)

var kinds = map[string]reflect.Type{
	"bool": reflect.TypeOf(true), "float64": reflect.TypeOf(1.0), "int": reflect.TypeOf(1), "int64": reflect.TypeOf(int64(1)), "string": reflect.TypeOf(""),
	"uint": reflect.TypeOf(uint(1)), "uint64": reflect.TypeOf(uint64(1)), "dur": reflect.TypeOf(time.Second),
	"nstring": reflect.TypeOf(nstring("")), "nint": reflect.TypeOf(nint(0)), "nbool": reflect.TypeOf(nbool(true)), "ndur": reflect.TypeOf(ndur(0)),
}
var unsup = []reflect.Type{reflect.TypeOf([]string{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(int32(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(new(*int)),
	reflect.TypeOf(make(chan int)), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf(time.Time{}), reflect.TypeOf([2]int{}), reflect.TypeOf(int8(0)), reflect.TypeOf([]int{}), reflect.TypeOf(func() {}),
	reflect.TypeOf(uint32(0)), reflect.TypeOf(complex(1, 1)), reflect.TypeOf([]struct{ A int }{}), reflect.TypeOf(uint16(0)), reflect.TypeOf([]*int{}), reflect.TypeOf(uintptr(0)), reflect.TypeOf((*error)(nil)).Elem()}

type node struct {
	nm       string
	op       hx.Op
	leaf     int
	sub      []*node
	index    int
	parent   *node
	isStruct bool
}

func name(op hx.Op) string {
	s := ""
	for _, c := range op["nm"].([]any) {
		s += c.(string)
	}
	return s
}

func exported(s string) bool { return s[0] >= 'A' && s[0] <= 'Z' }

func (n *node) typ() reflect.Type {
	var t reflect.Type
	if n.isStruct {
		var fs []reflect.StructField
		for i, c := range n.sub {
			c.index = i
			f := reflect.StructField{Name: c.nm, Type: c.typ()}
			if !exported(c.nm) {
				f.PkgPath = "verif"
			}
			if c.op.B("emb") {
				f.Anonymous = true
				if c.op.B("inl") {
					f.Tag = `yaml:",inline"`
				}
			}
			fs = append(fs, f)
		}
		t = reflect.StructOf(fs)
	} else if k := kinds[n.op.S("k")]; k != nil {
		t = k
	} else {
		t = unsup[n.op.I("u")%len(unsup)]
	}
	if n.parent != nil && n.op.B("p") {
		t = reflect.PtrTo(t)
	}
	return t
}

// at returns the place of the node, making pointers on the way when alloc is set; invalid when there is none
func (n *node) at(root reflect.Value, alloc bool) reflect.Value {
	if n.parent == nil {
		return root
	}
	v := n.parent.at(root, alloc)
	if !v.IsValid() {
		return v
	}
	v = v.Field(n.index)
	if n.op.B("p") {
		if v.IsNil() {
			if !alloc {
				return reflect.Value{}
			}
			open(v).Set(reflect.New(v.Type().Elem()))
		}
		v = v.Elem()
	}
	return v
}

func open(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func pub(n *node) bool {
	for ; n.parent != nil; n = n.parent {
		if !exported(n.nm) {
			return false
		}
	}
	return true
}

var fns = []func(){nil, func() {}, func() { fmt.Print() }}

func set(v reflect.Value, k, s string) {
	v = open(v)
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(s == "true")
	case reflect.Float64, reflect.Float32:
		f, _ := strconv.ParseFloat(s, 64)
		v.SetFloat(f)
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8:
		n, _ := strconv.ParseInt(s, 10, 64)
		v.SetInt(n)
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uintptr:
		n, _ := strconv.ParseUint(s, 10, 64)
		v.SetUint(n)
	case reflect.String:
		v.SetString(s)
	default:
		n, _ := strconv.Atoi(s)
		if n == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		switch v.Kind() {
		case reflect.Slice:
			v.Set(reflect.MakeSlice(v.Type(), n, n))
		case reflect.Map:
			v.Set(reflect.ValueOf(map[string]int{"k": n}))
		case reflect.Ptr:
			q := &n
			v.Set(reflect.ValueOf(&q))
		case reflect.Chan:
			v.Set(reflect.ValueOf(make(chan int, n)))
		case reflect.Interface:
			v.Set(reflect.ValueOf(fmt.Errorf("%d", n)))
		case reflect.Struct:
			v.Set(reflect.ValueOf(time.Unix(int64(n), 0)))
		case reflect.Array:
			v.Index(0).SetInt(int64(n))
		case reflect.Func:
			v.Set(reflect.ValueOf(fns[n]))
		case reflect.Complex128:
			v.SetComplex(complex(float64(n), 0))
		}
	}
}

func get(v reflect.Value) string {
	v = open(v)
	switch v.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float64, reflect.Float32:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uintptr:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.String:
		return v.String()
	}
	if v.IsZero() {
		return "0"
	}
	switch v.Kind() {
	case reflect.Slice:
		return strconv.Itoa(v.Len())
	case reflect.Map:
		return fmt.Sprint(v.Interface().(map[string]int)["k"])
	case reflect.Ptr:
		if v.Elem().IsNil() {
			return "0"
		}
		return fmt.Sprint(v.Elem().Elem().Interface())
	case reflect.Chan:
		return strconv.Itoa(v.Cap())
	case reflect.Interface:
		return fmt.Sprint(v.Interface())
	case reflect.Struct:
		return strconv.Itoa(int(v.Interface().(time.Time).Unix()))
	case reflect.Array:
		return strconv.Itoa(int(v.Index(0).Int()))
	case reflect.Func:
		for i, f := range fns {
			if reflect.ValueOf(f).Pointer() == v.Pointer() {
				return strconv.Itoa(i)
			}
		}
		return "other"
	case reflect.Complex128:
		return strconv.Itoa(int(real(v.Complex())))
	}
	return "?"
}

func yamlText(n *node, vals map[*node]string, ind string) string {
	out := ""
	for _, c := range n.sub {
		key := strings.ToLower(c.nm)
		if t, ok := vals[c]; ok {
			out += ind + key + ": " + t + "\n"
		} else if c.isStruct {
			if c.op.B("inl") {
				out += yamlText(c, vals, ind)
			} else if s := yamlText(c, vals, ind+"  "); s != "" {
				out += ind + key + ":\n" + s
			}
		}
	}
	return out
}

func run(s Script, dir string) []hx.Ev {
	root := &node{isStruct: true}
	cur := root
	var leaves []*node
	var evs []hx.Ev
	ev := func(op hx.Op, ks ...string) {
		e := hx.Ev{"e": op.S("e")}
		for _, k := range ks {
			e[k] = op[k]
		}
		evs = append(evs, e)
	}
	var rest []hx.Op
	var nodes []*node
	for _, op := range s.Ops {
		switch op.S("e") {
		case "open":
			n := &node{nm: name(op), op: op, parent: cur, isStruct: true}
			cur.sub = append(cur.sub, n)
			cur = n
			nodes = append(nodes, n)
			ev(op, "nm", "emb")
		case "close":
			cur = cur.parent
			ev(op)
		case "leaf":
			n := &node{nm: name(op), op: op, parent: cur}
			cur.sub = append(cur.sub, n)
			leaves = append(leaves, n)
			nodes = append(nodes, n)
			ev(op, "nm", "k")
		default:
			rest = append(rest, op)
		}
	}
	pv := reflect.New(root.typ())
	v := pv.Elem()
	ym := map[*node]string{}
	var file hx.Op
	args := []string{"prog"}
	os.Clearenv()
	for _, op := range rest {
		switch op.S("e") {
		case "preset":
			n := leaves[op.I("i")-1]
			set(n.at(v, true), op.S("k"), op.S("v"))
			ev(op, "i", "v")
		case "yaml":
			ym[leaves[op.I("i")-1]] = op.S("t")
			ev(op, "i", "v")
		case "null":
			ym[leaves[op.I("i")-1]] = op.S("t")
			ev(op, "i")
		case "nulls":
			ym[nodes[op.I("n")]] = op.S("t")
			evs = append(evs, hx.Ev{"e": "skip"})
		case "env":
			os.Setenv(op.S("nm"), op.S("t"))
			ev(op, "nm", "v")
		case "badfield", "badsource":
			switch op.S("how") {
			case "yaml":
				ym[leaves[op.I("i")-1]] = op.S("t")
			case "env":
				os.Setenv(op.S("nm"), op.S("t"))
			case "flag":
				for _, a := range op["t"].([]any) {
					args = append(args, a.(string))
				}
			case "text", "missing", "dir":
				file = op
			}
			if op.S("e") == "badfield" {
				ev(op, "i", "how", "t")
			} else {
				ev(op, "how", "t")
			}
		case "flag":
			for _, a := range op["t"].([]any) {
				args = append(args, a.(string))
			}
			ev(op, "nm", "v")
		}
	}
	yn := s.Par.S("y")
	if yn != "" && s.Par.B("file") {
		f := filepath.Join(dir, "conf.yaml")
		text := s.Par.S("head") + yamlText(root, ym, "")
		switch file.S("how") {
		case "text":
			text = file.S("t")
		case "missing":
			f = filepath.Join(dir, "none.yaml")
		case "dir":
			f = dir
		}
		if file.S("how") == "missing" || file.S("how") == "dir" {
		} else if err := os.WriteFile(f, []byte(text), 0o600); err != nil {
			panic(err)
		}
		y := []string{"-" + yn, f}
		if s.Par.B("last") {
			args = append(args, y...)
		} else {
			args = append(append([]string{"prog"}, y...), args[1:]...)
		}
	}
	os.Args = args
	flag.CommandLine = flag.NewFlagSet("prog", flag.ContinueOnError)
	if s.Par.B("strict") { // as in a program
		flag.CommandLine = flag.NewFlagSet("prog", flag.ExitOnError)
	}
	if s.Par.B("bad") {
		b, _ := json.Marshal(evs)
		if err := os.WriteFile(filepath.Join(dir, "pre"), b, 0o600); err != nil {
			panic(err)
		}
	}
	flag.CommandLine.SetOutput(io.Discard)
	p := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				p = fmt.Sprint(r)
			}
		}()
		conf.Load(pv.Interface(), yn)
	}()
	if p != "" {
		return append(evs, hx.Ev{"e": "panic", "what": p})
	}
	evs = append(evs, hx.Ev{"e": "load"})
	for i, n := range leaves {
		val := "~nil~"
		if a := n.at(v, false); a.IsValid() {
			val = get(a)
		} else if !pub(n) {
			val = map[string]string{"bool": "false", "nbool": "false", "string": "", "nstring": ""}[n.op.S("k")]
			if val == "" && !strings.HasSuffix(n.op.S("k"), "string") {
				val = "0"
			}
		}
		evs = append(evs, hx.Ev{"e": "val", "i": i + 1, "v": val})
	}
	if s.Par.B("names") {
		for _, n := range nodes {
			if n.op.B("p") && pub(n) {
				evs = append(evs, hx.Ev{"e": "ptr", "nm": n.nm, "ok": n.at(v, false).IsValid()})
			}
		}
		l := []string{}
		flag.CommandLine.VisitAll(func(f *flag.Flag) {
			if f.Name != yn {
				l = append(l, f.Name)
			}
		})
		sort.Strings(l)
		evs = append(evs, hx.Ev{"e": "flags", "l": l})
	}
	return evs
}

// TestChild runs the scripts from number VH_FROM on and writes one line for each; loading may end the process
func TestChild(t *testing.T) {
	if os.Getenv("VH_LINES") == "" {
		t.Skip()
	}
	var in In
	hx.In(t, &in)
	from, _ := strconv.Atoi(os.Getenv("VH_FROM"))
	dir := os.Getenv("VH_DIR")
	f, err := os.Create(os.Getenv("VH_LINES"))
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriter(f)
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stderr = null
	for _, s := range in.Scripts[from:] {
		b, _ := json.Marshal(run(s, dir))
		w.Write(append(b, '\n'))
		w.Flush()
	}
	os.Exit(0)
}

func TestLoads(t *testing.T) {
	var in In
	hx.In(t, &in)
	dir, err := os.MkdirTemp(filepath.Dir(os.Getenv("VH_OUT")), "d")
	if err != nil {
		t.Fatal(err)
	}
	ts := &hx.Traces{}
	lines := filepath.Join(dir, "lines")
	ended := 0
	for from := 0; from < len(in.Scripts) && ended < 4; {
		c := exec.Command(os.Args[0], "-test.run", "^TestChild$", "-test.timeout", "300s")
		c.Env = append(os.Environ(), "VH_LINES="+lines, "VH_DIR="+dir, "VH_FROM="+strconv.Itoa(from))
		out, cerr := c.CombinedOutput()
		b, err := os.ReadFile(lines)
		if err != nil {
			t.Fatalf("child: %v %s", cerr, out)
		}
		l := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		if len(b) == 0 {
			l = nil
		}
		for _, x := range l {
			var evs []any
			if err := json.Unmarshal([]byte(x), &evs); err != nil {
				t.Fatal(err)
			}
			ts.Add(map[string]any{"ev": evs})
		}
		from += len(l)
		if from < len(in.Scripts) {
			o := string(out)
			if len(o) > 2000 {
				o = o[:2000]
			}
			if in.Scripts[from].Par.B("bad") {
				var evs []any
				b, err := os.ReadFile(filepath.Join(dir, "pre"))
				if err != nil {
					t.Fatal(err)
				}
				if err := json.Unmarshal(b, &evs); err != nil {
					t.Fatal(err)
				}
				ts.Add(map[string]any{"ev": append(evs, hx.Ev{"e": "exit", "rc": c.ProcessState.ExitCode()})})
				from++
				continue
			}
			ts.Add(map[string]any{"ev": []hx.Ev{{"e": "ended", "script": in.Scripts[from], "out": o}}})
			from++
			ended++
		}
	}
	os.RemoveAll(dir)
	hx.OutTraces(t, ts)
}

// Command instr copies the Go packages under SRC to DST (without tests) and
// rewrites the packages named on the command line so that they run under vsched:
//
//   - sync and sync/atomic are replaced by verif/vsync and verif/vatomic;
//   - a scheduling point precedes every statement and follows channel operations;
//   - go statements start goroutines through vsched.Go;
//   - read-modify-write statements on shared places (x.f++, x.f += y, m[k]++) are
//     split into a read, a scheduling point and a write.
//
// The rewriting is purely syntactic and independent of how the code is written.
//
//	instr SRC DST [pkgdir...]
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const vs = "vsched__"

func main() {
	src, dst := os.Args[1], os.Args[2]
	inst := map[string]bool{}
	for _, p := range os.Args[3:] {
		inst[p] = true
	}
	err := filepath.Walk(src, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, path)
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && rel != "." {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(rel, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if strings.HasSuffix(rel, ".go") && inst[filepath.Dir(rel)] {
			nb, err := rewrite(path, b)
			if err != nil {
				fmt.Fprintln(os.Stderr, "instr:", rel, err)
				os.Exit(3)
			}
			b = nb
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

var tmpN int

func tmp() string { tmpN++; return fmt.Sprintf("v%d__", tmpN) }

func rewrite(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	var head []string
	for _, l := range strings.Split(string(src), "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "package ") {
			break
		}
		if strings.HasPrefix(t, "//go:build") || strings.HasPrefix(t, "// +build") {
			head = append(head, t)
		}
	}
	f, err := parser.ParseFile(fset, name, src, 0) // comments dropped
	if err != nil {
		return nil, err
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		switch p {
		case "sync":
			im.Path.Value = `"verif/vsync"`
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
		case "sync/atomic":
			im.Path.Value = `"verif/vatomic"`
			if im.Name == nil {
				im.Name = ast.NewIdent("atomic")
			}
		}
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
		Name: ast.NewIdent(vs), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/vsched"`}}}}
	use := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
		Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{sel("Yield")}}}}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			block(fd.Body)
		} else if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			lits(gd)
		}
	}
	decls := []ast.Decl{imp}
	i := 0
	for ; i < len(f.Decls); i++ {
		gd, ok := f.Decls[i].(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			break
		}
		decls = append(decls, gd)
	}
	decls = append(decls, use)
	f.Decls = append(decls, f.Decls[i:]...)
	var out bytes.Buffer
	for _, h := range head {
		fmt.Fprintln(&out, h)
	}
	if len(head) > 0 {
		fmt.Fprintln(&out)
	}
	if err := printer.Fprint(&out, fset, f); err != nil {
		return nil, err
	}
	return out.Bytes(), nil
}

func sel(n string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(vs), Sel: ast.NewIdent(n)}
}

func yield() ast.Stmt { return &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Yield")}} }

// lits instruments the function literals below n.
func lits(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(x ast.Node) bool {
		if fl, ok := x.(*ast.FuncLit); ok {
			block(fl.Body)
			return false
		}
		return true
	})
}

func block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = list(b.List)
	if len(b.List) == 0 {
		b.List = []ast.Stmt{yield()}
	}
}

func list(in []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(in))
	for _, s := range in {
		out = append(out, yield())
		pre, ns, post := stmt(s)
		out = append(out, pre...)
		out = append(out, ns)
		out = append(out, post...)
	}
	return out
}

var builtins = map[string]bool{"close": true, "panic": true, "print": true, "println": true, "delete": true, "copy": true, "append": true, "recover": true}

// place tells whether e is a shared place that can be evaluated twice.
func place(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.IndexExpr:
		return pure(x.X) && pure(x.Index)
	case *ast.ParenExpr:
		return place(x.X)
	}
	return false
}

func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.IndexExpr:
		return pure(x.X) && pure(x.Index)
	}
	return false
}

func stmt(s ast.Stmt) (pre []ast.Stmt, ns ast.Stmt, post []ast.Stmt) {
	switch x := s.(type) {
	case *ast.BlockStmt:
		block(x)
	case *ast.IfStmt:
		ifs(x)
	case *ast.ForStmt:
		simple(x.Init)
		lits(nodeOf(x.Cond))
		simple(x.Post)
		block(x.Body)
	case *ast.RangeStmt:
		lits(nodeOf(x.X))
		block(x.Body)
	case *ast.SwitchStmt:
		simple(x.Init)
		lits(nodeOf(x.Tag))
		cases(x.Body)
	case *ast.TypeSwitchStmt:
		simple(x.Init)
		simple(x.Assign)
		cases(x.Body)
	case *ast.SelectStmt:
		for _, c := range x.Body.List {
			cc := c.(*ast.CommClause)
			simple(cc.Comm)
			cc.Body = list(cc.Body)
			if len(cc.Body) == 0 {
				cc.Body = []ast.Stmt{yield()}
			}
		}
	case *ast.LabeledStmt:
		p, n, q := stmt(x.Stmt)
		if len(p) > 0 {
			x.Stmt = &ast.BlockStmt{List: append(append(p, n), q...)}
			return nil, x, nil
		}
		x.Stmt = n
		return nil, x, q
	case *ast.GoStmt:
		return goStmt(x)
	case *ast.IncDecStmt:
		lits(x.X)
		if place(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return nil, rmw(x.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"}), nil
		}
	case *ast.AssignStmt:
		lits(x)
		if op, ok := opAssign[x.Tok]; ok && len(x.Lhs) == 1 && place(x.Lhs[0]) {
			return nil, rmw(x.Lhs[0], op, &ast.ParenExpr{X: x.Rhs[0]}), nil
		}
		if len(x.Rhs) == 1 && isRecv(x.Rhs[0]) {
			return nil, s, []ast.Stmt{yield()}
		}
	case *ast.SendStmt:
		lits(x)
		return nil, s, []ast.Stmt{yield()}
	case *ast.ExprStmt:
		lits(x)
		if isRecv(x.X) {
			return nil, s, []ast.Stmt{yield()}
		}
	default:
		lits(s)
	}
	return nil, s, nil
}

func nodeOf(e ast.Expr) ast.Node {
	if e == nil {
		return nil
	}
	return e
}

func simple(s ast.Stmt) {
	if s != nil {
		lits(s)
	}
}

func isRecv(e ast.Expr) bool {
	u, ok := e.(*ast.UnaryExpr)
	return ok && u.Op == token.ARROW
}

var opAssign = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND,
	token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
	token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func rmw(l ast.Expr, op token.Token, r ast.Expr) ast.Stmt {
	v := tmp()
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{l}},
		yield(),
		&ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: ast.NewIdent(v), Op: op, Y: r}}},
	}}
}

func ifs(x *ast.IfStmt) {
	simple(x.Init)
	lits(x.Cond)
	block(x.Body)
	switch e := x.Else.(type) {
	case *ast.BlockStmt:
		block(e)
	case *ast.IfStmt:
		ifs(e)
	}
}

func cases(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for _, e := range cc.List {
			lits(e)
		}
		cc.Body = list(cc.Body)
	}
}

func goStmt(x *ast.GoStmt) (pre []ast.Stmt, ns ast.Stmt, post []ast.Stmt) {
	c := x.Call
	lits(c)
	var p []ast.Stmt
	fun := c.Fun
	if fl, ok := fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		return nil, &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Go"), Args: []ast.Expr{fl}}}, nil
	}
	if id, ok := fun.(*ast.Ident); !ok || !builtins[id.Name] {
		v := tmp()
		p = append(p, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{fun}})
		fun = ast.NewIdent(v)
	}
	var args []ast.Expr
	for _, a := range c.Args {
		switch y := a.(type) {
		case *ast.BasicLit:
			args = append(args, a)
			continue
		case *ast.Ident:
			if y.Name == "nil" || y.Name == "true" || y.Name == "false" {
				args = append(args, a)
				continue
			}
		}
		v := tmp()
		p = append(p, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		args = append(args, ast.NewIdent(v))
	}
	call := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		call.Ellipsis = token.Pos(1)
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	p = append(p, &ast.ExprStmt{X: &ast.CallExpr{Fun: sel("Go"), Args: []ast.Expr{lit}}})
	return nil, &ast.BlockStmt{List: p}, nil
}

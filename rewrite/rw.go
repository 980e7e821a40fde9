package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

type rewriter struct {
	p      *pkg
	file   *ast.File
	info   *types.Info
	fn     []string // enclosing functions
	two    map[ast.Expr]bool
	n      int
	useMC  bool
	useNet bool
	keep   map[string]string // package name -> symbol kept used
}

func (w *rewriter) tmp(s string) string { w.n++; return fmt.Sprintf("zz%s%d", s, w.n) }

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func (w *rewriter) mc(n string) ast.Expr {
	w.useMC = true
	return &ast.SelectorExpr{X: id("zzmc"), Sel: id(n)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func str(v string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(v)} }

func num(v int) ast.Expr {
	e, _ := parser.ParseExpr(strconv.Itoa(v))
	return e
}

func define(names []string, rhs ...ast.Expr) ast.Stmt {
	var l []ast.Expr
	for _, n := range names {
		l = append(l, id(n))
	}
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: rhs}
}

func (w *rewriter) run() {
	w.two = map[ast.Expr]bool{}
	w.keep = map[string]string{}
	f := w.file
	f.Comments = nil
	// import names -> paths
	for _, d := range f.Decls {
		w.node(reflect.ValueOf(d))
	}
	prefix := modPath + zz
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if d, ok := shims[path]; ok {
			im.Path.Value = strconv.Quote(prefix + d)
			im.EndPos = 0
		} else if strings.HasPrefix(path, "golang.org/x/sync/") {
			im.Path.Value = strconv.Quote(modPath + "/internal/zzext/" + strings.TrimPrefix(path, "golang.org/x/sync/"))
			im.EndPos = 0
		}
	}
	var decls []ast.Decl
	add := func(name, path string) {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}}})
	}
	if w.useMC {
		add("zzmc", prefix+"mc")
	}
	if w.useNet {
		add("zznet", prefix+"xnet")
	}
	f.Decls = append(decls, f.Decls...)
	for n, sym := range w.keep {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: id(n), Sel: id(sym)}}}}})
	}
}

var (
	exprType  = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtType  = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	declType  = reflect.TypeOf((*ast.Decl)(nil)).Elem()
	specType  = reflect.TypeOf((*ast.Spec)(nil)).Elem()
	objType   = reflect.TypeOf((*ast.Object)(nil))
	scopeType = reflect.TypeOf((*ast.Scope)(nil))
)

// node walks a pointer to an AST struct.
func (w *rewriter) node(v reflect.Value) {
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Pointer || v.IsNil() || v.Type() == objType || v.Type() == scopeType {
		return
	}
	if d, ok := v.Interface().(*ast.FuncDecl); ok {
		name := d.Name.Name
		if d.Recv != nil && len(d.Recv.List) > 0 {
			name = recvName(d.Recv.List[0].Type) + "." + name
		}
		w.fn = append(w.fn, name)
		defer func() { w.fn = w.fn[:len(w.fn)-1] }()
	}
	if vs, ok := v.Interface().(*ast.ValueSpec); ok && len(vs.Names) == 2 && len(vs.Values) == 1 {
		w.two[ast.Unparen(vs.Values[0])] = true
	}
	e := v.Elem()
	if e.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < e.NumField(); i++ {
		w.field(e.Field(i))
	}
}

func (w *rewriter) field(f reflect.Value) {
	switch f.Kind() {
	case reflect.Interface:
		if f.IsNil() {
			return
		}
		switch f.Type() {
		case exprType:
			f.Set(reflect.ValueOf(w.expr(f.Interface().(ast.Expr))))
		case stmtType:
			f.Set(reflect.ValueOf(w.stmt(f.Interface().(ast.Stmt))))
		case declType, specType:
			w.node(f)
		}
	case reflect.Pointer:
		w.node(f)
	case reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			w.field(f.Index(i))
		}
	}
}

func recvName(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.StarExpr:
		return "(*" + recvName(x.X) + ")"
	case *ast.IndexExpr:
		return recvName(x.X)
	case *ast.IndexListExpr:
		return recvName(x.X)
	case *ast.Ident:
		return x.Name
	}
	return "?"
}

func (w *rewriter) site() string {
	n := "init"
	if len(w.fn) > 0 {
		n = w.fn[len(w.fn)-1]
	}
	return filepath.Base(w.p.tp.Name()) + "." + n
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if it, ok := tp.Constraint().Underlying().(*types.Interface); ok && it.NumEmbeddeds() == 1 {
			if u, ok := it.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
				return u.Term(0).Type().Underlying()
			}
			return it.EmbeddedType(0).Underlying()
		}
	}
	return t.Underlying()
}

func (w *rewriter) typeOf(e ast.Expr) types.Type { return w.info.TypeOf(e) }

func (w *rewriter) isChan(e ast.Expr) bool { _, ok := under(w.typeOf(e)).(*types.Chan); return ok }

func (w *rewriter) builtin(c *ast.CallExpr) string {
	if i, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if b, ok := w.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (w *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			two := w.two[x]
			ch := w.expr(x.X)
			if two {
				return call(w.mc("Recv2"), ch)
			}
			return call(w.mc("Recv"), ch)
		}
	case *ast.CallExpr:
		switch w.builtin(x) {
		case "close":
			return call(w.mc("Close"), w.expr(x.Args[0]))
		case "len":
			if w.isChan(x.Args[0]) {
				return call(w.mc("Len"), w.expr(x.Args[0]))
			}
		}
	case *ast.SelectorExpr:
		if i, ok := x.X.(*ast.Ident); ok {
			if pn, ok := w.info.Uses[i].(*types.PkgName); ok {
				if sh, ok := selShim[pn.Imported().Path()+"."+x.Sel.Name]; ok {
					w.keep[i.Name] = sh.keep
					if sh.dir == "mc" {
						return w.mc(sh.name)
					}
					w.useNet = true
					return &ast.SelectorExpr{X: id("zznet"), Sel: id(sh.name)}
				}
			}
		}
	case *ast.FuncLit:
		w.node(reflect.ValueOf(x))
		return x
	}
	w.node(reflect.ValueOf(e))
	return e
}

func (w *rewriter) recvOf(e ast.Expr) *ast.UnaryExpr {
	if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// touchKeys wraps the index of map assignments whose keys have no natural order.
func (w *rewriter) touchKeys(lhs []ast.Expr) map[*ast.IndexExpr]bool {
	m := map[*ast.IndexExpr]bool{}
	for _, l := range lhs {
		ix, ok := ast.Unparen(l).(*ast.IndexExpr)
		if !ok {
			continue
		}
		mt, ok := under(w.typeOf(ix.X)).(*types.Map)
		if !ok {
			continue
		}
		switch mt.Key().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Chan:
			m[ix] = true
		}
	}
	return m
}

func (w *rewriter) stmt(st ast.Stmt) ast.Stmt {
	switch x := st.(type) {
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return w.selectStmt(sel, x.Label)
		}
		x.Stmt = w.stmt(x.Stmt)
		return x
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := w.recvOf(x.Rhs[0]); u != nil {
				w.two[u] = true
			}
		}
		tk := w.touchKeys(x.Lhs)
		keyT := map[*ast.IndexExpr]types.Type{}
		for ix := range tk {
			keyT[ix] = under(w.typeOf(ix.X)).(*types.Map).Key()
		}
		w.node(reflect.ValueOf(x))
		for ix := range tk {
			ix.Index = call(w.mc("TouchKey"), ix.Index)
		}
		return x
	case *ast.IncDecStmt:
		tk := w.touchKeys([]ast.Expr{x.X})
		w.node(reflect.ValueOf(x))
		for ix := range tk {
			ix.Index = call(w.mc("TouchKey"), ix.Index)
		}
		return x
	case *ast.SendStmt:
		ct := under(w.typeOf(x.Chan)).(*types.Chan)
		same := types.Identical(ct.Elem(), w.typeOf(x.Value)) && w.info.Types[x.Value].Value == nil
		ch, v := w.expr(x.Chan), w.expr(x.Value)
		if same {
			return &ast.ExprStmt{X: call(w.mc("Send"), ch, v)}
		}
		return &ast.ExprStmt{X: call(call(w.mc("SendTo"), ch), v)}
	case *ast.GoStmt:
		return w.goStmt(x)
	case *ast.DeferStmt: // its call is no field of an interface type
		if c, ok := w.expr(x.Call).(*ast.CallExpr); ok {
			x.Call = c
		}
		return x
	case *ast.RangeStmt:
		switch under(w.typeOf(x.X)).(type) {
		case *types.Chan:
			return w.rangeChan(x)
		case *types.Map:
			w.node(reflect.ValueOf(x))
			x.X = call(w.mc("MapAll"), x.X)
			return x
		}
	case *ast.SelectStmt:
		return w.selectStmt(x, nil)
	}
	w.node(reflect.ValueOf(st))
	return st
}

func (w *rewriter) rangeChan(x *ast.RangeStmt) ast.Stmt {
	ch := w.expr(x.X)
	zc, zv, zo := w.tmp("c"), w.tmp("v"), w.tmp("ok")
	if x.Key != nil {
		if i, ok := x.Key.(*ast.Ident); ok && i.Name == "_" {
			x.Key = nil
		}
	}
	var pre []ast.Stmt
	if x.Key == nil {
		pre = append(pre, define([]string{"_", zo}, call(w.mc("Recv2"), id(zc))))
	} else {
		pre = append(pre, define([]string{zv, zo}, call(w.mc("Recv2"), id(zc))))
	}
	pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(zo)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
	if x.Key != nil {
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{w.expr(x.Key)}, Tok: x.Tok, Rhs: []ast.Expr{id(zv)}})
	}
	w.node(reflect.ValueOf(x.Body))
	// the body is a block of its own: it may declare names again
	pre = append(pre, x.Body)
	return &ast.ForStmt{Init: define([]string{zc}, ch), Body: &ast.BlockStmt{List: pre}}
}

func (w *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	name := str(w.site())
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && fl.Type.Results == nil {
		w.node(reflect.ValueOf(fl))
		return &ast.ExprStmt{X: call(w.mc("Go"), name, fl)}
	}
	closure := func(body ast.Stmt) ast.Expr {
		return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{body}}}
	}
	if w.builtin(c) != "" {
		e := w.expr(c)
		return &ast.ExprStmt{X: call(w.mc("Go"), name, closure(&ast.ExprStmt{X: e}))}
	}
	var pre []ast.Stmt
	// function value
	fun := ast.Unparen(c.Fun)
	inline := false
	switch f := fun.(type) {
	case *ast.Ident:
		_, inline = w.info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if i, ok := f.X.(*ast.Ident); ok {
			_, inline = w.info.Uses[i].(*types.PkgName)
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		if tv, ok := w.info.Types[fun]; ok && tv.IsValue() {
			if i, ok := baseIdent(fun).(*ast.Ident); ok {
				_, inline = w.info.Uses[i].(*types.Func)
			}
		}
	}
	nf := w.expr(c.Fun)
	if !inline {
		t := w.tmp("f")
		pre = append(pre, define([]string{t}, nf))
		nf = id(t)
	}
	sig, _ := under(w.typeOf(fun)).(*types.Signature)
	var args []ast.Expr
	for i, a := range c.Args {
		tv := w.info.Types[a]
		multi := false
		if t, ok := tv.Type.(*types.Tuple); ok && t.Len() > 1 {
			multi = true
		}
		na := w.expr(a)
		isNil := tv.IsNil()
		if tv.Value != nil || isNil || multi || untyped(tv.Type) {
			args = append(args, na)
			continue
		}
		_ = sig
		_ = i
		t := w.tmp("a")
		pre = append(pre, define([]string{t}, na))
		args = append(args, id(t))
	}
	nc := &ast.CallExpr{Fun: nf, Args: args, Ellipsis: c.Ellipsis}
	g := &ast.ExprStmt{X: call(w.mc("Go"), name, closure(&ast.ExprStmt{X: nc}))}
	if len(pre) == 0 {
		return g
	}
	return &ast.BlockStmt{List: append(pre, g)}
}

func untyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func baseIdent(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.IndexExpr:
		return baseIdent(x.X)
	case *ast.IndexListExpr:
		return baseIdent(x.X)
	}
	return e
}

func (w *rewriter) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	zs := w.tmp("s")
	hasDef := "false"
	var pre []ast.Stmt
	var clauses []ast.Stmt
	idx := 0
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		var head []ast.Stmt
		var list []ast.Expr
		switch c := cc.Comm.(type) {
		case nil:
			hasDef = "true"
		case *ast.SendStmt:
			ch, v := w.expr(c.Chan), w.expr(c.Value)
			pre = append(pre, &ast.ExprStmt{X: call(call(w.mc("SelSend"), id(zs), ch), v)})
			list = []ast.Expr{num(idx)}
			idx++
		case *ast.ExprStmt:
			u := w.recvOf(c.X)
			pre = append(pre, &ast.ExprStmt{X: call(w.mc("SelRecv"), id(zs), w.expr(u.X))})
			list = []ast.Expr{num(idx)}
			idx++
		case *ast.AssignStmt:
			u := w.recvOf(c.Rhs[0])
			zr := w.tmp("r")
			pre = append(pre, define([]string{zr}, call(w.mc("SelRecv"), id(zs), w.expr(u.X))))
			m := "Val"
			if len(c.Lhs) == 2 {
				m = "Get"
			}
			var lhs []ast.Expr
			blank := true
			for _, l := range c.Lhs {
				if i, ok := l.(*ast.Ident); !ok || i.Name != "_" {
					blank = false
				}
				lhs = append(lhs, w.expr(l))
			}
			tok := c.Tok
			if blank {
				tok = token.ASSIGN
			}
			head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: id(zr), Sel: id(m)})}})
			list = []ast.Expr{num(idx)}
			idx++
		}
		for i := range cc.Body {
			cc.Body[i] = w.stmt(cc.Body[i])
		}
		clauses = append(clauses, &ast.CaseClause{List: list, Body: append(head, cc.Body...)})
	}
	if hasDef == "false" {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), str("unreachable"))}}})
	}
	var sw ast.Stmt = &ast.SwitchStmt{Tag: call(&ast.SelectorExpr{X: id(zs), Sel: id("Wait")}), Body: &ast.BlockStmt{List: clauses}}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	list := append([]ast.Stmt{define([]string{zs}, call(w.mc("NewSelect"), id(hasDef)))}, pre...)
	return &ast.BlockStmt{List: append(list, sw)}
}

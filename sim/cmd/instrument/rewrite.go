package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"strconv"
	"strings"
)

const rt = "simrt"

type ctx struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	file  string
	mem   bool
	sites *[]string
	fn    string

	shared    map[types.Object]bool // captured or address-taken, and mutated
	tmp       int
	needStime bool
}

func (c *ctx) transformFile(f *ast.File) {
	c.shared = map[types.Object]bool{}
	c.analyse(f)
	f.Comments = nil
	f.Doc = nil
	keep := []string{}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(path)
		if im.Name != nil {
			name = im.Name.Name
		}
		im.Doc, im.Comment = nil, nil
		switch path {
		case "sync":
			im.Path = &ast.BasicLit{Kind: token.STRING, Value: `"fsim/simrt/ssync"`}
			im.Name = ast.NewIdent(name)
		case "sync/atomic":
			im.Path = &ast.BasicLit{Kind: token.STRING, Value: `"fsim/simrt/satomic"`}
			im.Name = ast.NewIdent(name)
		case "runtime":
			if name != "_" && name != "." {
				keep = append(keep, name+".Version")
			}
		case "time":
			if name != "_" && name != "." {
				keep = append(keep, name+".Unix")
			}
		}
		im.EndPos = 0
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			c.fn = d.Name.Name
			if d.Recv != nil && len(d.Recv.List) == 1 {
				c.fn = types.ExprString(d.Recv.List[0].Type) + "." + c.fn
			}
			if d.Body != nil {
				c.block(d.Body)
				d.Body.List = append([]ast.Stmt{c.stmtCall("Tick")}, d.Body.List...)
			}
		case *ast.GenDecl:
			c.fn = "init"
			c.genDecl(d)
		}
	}
	// Imports of the runtime.
	specs := []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(rt), Path: &ast.BasicLit{Kind: token.STRING, Value: `"fsim/simrt"`}}}
	if c.needStime {
		specs = append(specs, &ast.ImportSpec{Name: ast.NewIdent("simstime"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"fsim/simrt/stime"`}})
	}
	var decls []ast.Decl
	for _, s := range specs {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
	}
	decls = append(decls, f.Decls...)
	keep = append(keep, rt+".Active")
	for _, k := range keep {
		parts := strings.Split(k, ".")
		decls = append(decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
			Names:  []*ast.Ident{ast.NewIdent("_")},
			Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(parts[0]), Sel: ast.NewIdent(parts[1])}},
		}}})
	}
	f.Decls = decls
}

// analyse finds local variables that may be shared between goroutines:
// captured by a function literal or with their address taken, and changed
// after their definition.
func (c *ctx) analyse(f *ast.File) {
	captured := map[types.Object]bool{}
	mutated := map[types.Object]bool{}
	addrTaken := map[types.Object]bool{}
	isLocal := func(o types.Object) bool {
		v, ok := o.(*types.Var)
		return ok && !v.IsField() && o.Parent() != nil && o.Parent() != c.pkg.Scope() && o.Pkg() == c.pkg
	}
	root := func(e ast.Expr) types.Object {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				sel := c.info.Selections[x]
				if sel == nil || sel.Kind() != types.FieldVal || isPtr(c.typeOf(x.X)) {
					return nil
				}
				e = x.X
			case *ast.IndexExpr:
				if _, ok := under(c.typeOf(x.X)).(*types.Array); !ok {
					return nil
				}
				e = x.X
			case *ast.Ident:
				if o := c.info.Uses[x]; o != nil && isLocal(o) {
					return o
				}
				return nil
			default:
				return nil
			}
		}
	}
	var lits []*ast.FuncLit
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				lits = append(lits, n)
				walk(n.Body)
				lits = lits[:len(lits)-1]
				return false
			case *ast.Ident:
				if o := c.info.Uses[n]; o != nil && isLocal(o) {
					for _, l := range lits {
						if o.Pos() < l.Pos() || o.Pos() > l.End() {
							captured[o] = true
						}
					}
				}
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					if o := root(l); o != nil {
						mutated[o] = true
					}
				}
			case *ast.IncDecStmt:
				if o := root(n.X); o != nil {
					mutated[o] = true
				}
			case *ast.RangeStmt:
				for _, l := range []ast.Expr{n.Key, n.Value} {
					if l != nil && n.Tok == token.ASSIGN {
						if o := root(l); o != nil {
							mutated[o] = true
						}
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					if o := root(n.X); o != nil {
						mutated[o] = true
						addrTaken[o] = true
					}
				}
			case *ast.SliceExpr:
				if _, ok := under(c.typeOf(n.X)).(*types.Array); ok {
					if o := root(n.X); o != nil {
						mutated[o] = true
					}
				}
			case *ast.SelectorExpr:
				if sel := c.info.Selections[n]; sel != nil && sel.Kind() == types.MethodVal && recvIsPtr(sel) {
					if o := root(n.X); o != nil && !isPtr(o.Type()) {
						mutated[o] = true
					}
				}
			}
			return true
		})
	}
	walk(f)
	for o := range mutated {
		if captured[o] || addrTaken[o] {
			c.shared[o] = true
		}
	}
}

func recvIsPtr(sel *types.Selection) bool {
	fn, ok := sel.Obj().(*types.Func)
	if !ok {
		return false
	}
	sig := fn.Type().(*types.Signature)
	return sig.Recv() != nil && isPtr(sig.Recv().Type())
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isPtr(t types.Type) bool {
	_, ok := under(t).(*types.Pointer)
	return ok
}

func (c *ctx) typeOf(e ast.Expr) types.Type { return c.info.TypeOf(e) }

func (c *ctx) site(n ast.Node, kind string) ast.Expr {
	p := c.fset.Position(n.Pos())
	*c.sites = append(*c.sites, fmt.Sprintf("%s:%d %s %s", c.file, p.Line, c.fn, kind))
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(*c.sites) - 1)}
}

func call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(rt), Sel: ast.NewIdent(name)}, Args: args}
}

func method(x ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: x, Sel: ast.NewIdent(name)}, Args: args}
}

func (c *ctx) stmtCall(name string, args ...ast.Expr) ast.Stmt {
	return &ast.ExprStmt{X: call(name, args...)}
}

func addrOf(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

func deref(e ast.Expr) ast.Expr { return &ast.ParenExpr{X: &ast.StarExpr{X: e}} }

func (c *ctx) temp(prefix string) *ast.Ident {
	c.tmp++
	return ast.NewIdent(fmt.Sprintf("sim%s%d", prefix, c.tmp))
}

// isMem reports whether e denotes memory that other goroutines may reach.
func (c *ctx) isMem(e ast.Expr) bool {
	if !c.mem {
		return false
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.isMem(e.X)
	case *ast.Ident:
		o, ok := c.info.Uses[e].(*types.Var)
		if !ok {
			return false
		}
		if o.Pkg() == c.pkg && o.Parent() == c.pkg.Scope() {
			return true
		}
		return c.shared[o]
	case *ast.SelectorExpr:
		sel := c.info.Selections[e]
		if sel == nil {
			// pkg.Var
			o, ok := c.info.Uses[e.Sel].(*types.Var)
			return ok && o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), strings.SplitN(c.pkg.Path(), "/internal", 2)[0])
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		if sel.Indirect() || isPtr(c.typeOf(e.X)) {
			return true
		}
		return c.isMem(e.X)
	case *ast.IndexExpr:
		switch t := under(c.typeOf(e.X)).(type) {
		case *types.Slice:
			return true
		case *types.Array:
			return c.isMem(e.X)
		case *types.Pointer:
			_ = t
			return true
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

func (c *ctx) isConst(e ast.Expr) bool {
	tv, ok := c.info.Types[e]
	return ok && tv.Value != nil
}

func (c *ctx) isType(e ast.Expr) bool {
	tv, ok := c.info.Types[e]
	return ok && tv.IsType()
}

func (c *ctx) exprs(es []ast.Expr) []ast.Expr {
	out := make([]ast.Expr, len(es))
	for i, e := range es {
		out[i] = c.rv(e)
	}
	return out
}

// rv rewrites e where its value is needed.
func (c *ctx) rv(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if c.isConst(e) || c.isType(e) {
		return e
	}
	switch e := e.(type) {
	case *ast.Ident:
		if c.isMem(e) {
			return deref(call("R", c.site(e, "load "+e.Name), addrOf(ast.NewIdent(e.Name))))
		}
		return e
	case *ast.SelectorExpr:
		if sel := c.info.Selections[e]; sel != nil {
			switch sel.Kind() {
			case types.MethodVal:
				return &ast.SelectorExpr{X: c.recv(e, sel), Sel: e.Sel}
			case types.MethodExpr:
				return e
			}
			if c.isMem(e) {
				return deref(call("R", c.site(e, "load "+types.ExprString(e)), addrOf(c.addr(e))))
			}
			return &ast.SelectorExpr{X: c.addrOrValue(e.X), Sel: e.Sel}
		}
		if r := c.replacePkgFunc(e); r != nil {
			return r
		}
		if c.isMem(e) {
			return deref(call("R", c.site(e, "load "+types.ExprString(e)), addrOf(e)))
		}
		return e
	case *ast.IndexExpr:
		if tv, ok := c.info.Types[e.X]; ok && !tv.IsType() {
			switch t := under(tv.Type).(type) {
			case *types.Signature:
				return e // instantiation
			case *types.Map:
				return c.mapIndex(e, "MapR")
			default:
				_ = t
			}
			if _, isTP := tv.Type.(*types.TypeParam); isTP {
				return &ast.IndexExpr{X: c.rv(e.X), Index: c.rv(e.Index)}
			}
		}
		if c.isMem(e) {
			return deref(call("R", c.site(e, "load "+types.ExprString(e)), addrOf(c.addr(e))))
		}
		return &ast.IndexExpr{X: c.addrOrValue(e.X), Index: c.rv(e.Index)}
	case *ast.IndexListExpr:
		return e
	case *ast.StarExpr:
		if c.isMem(e) {
			return deref(call("R", c.site(e, "load "+types.ExprString(e)), c.rv(e.X)))
		}
		return &ast.StarExpr{X: c.rv(e.X)}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: c.rv(e.X)}
	case *ast.SliceExpr:
		x := e.X
		if _, ok := under(c.typeOf(x)).(*types.Array); ok {
			x = c.addr(x)
		} else {
			x = c.rv(x)
		}
		return &ast.SliceExpr{X: x, Low: c.rv(e.Low), High: c.rv(e.High), Max: c.rv(e.Max), Slice3: e.Slice3}
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			return &ast.UnaryExpr{Op: token.AND, X: c.addr(e.X)}
		case token.ARROW:
			return call("Recv", c.rv(e.X))
		}
		return &ast.UnaryExpr{Op: e.Op, X: c.rv(e.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: c.rv(e.X), Op: e.Op, Y: c.rv(e.Y)}
	case *ast.CompositeLit:
		t := under(c.typeOf(e))
		if p, ok := t.(*types.Pointer); ok {
			t = under(p.Elem())
		}
		_, isStruct := t.(*types.Struct)
		elts := make([]ast.Expr, len(e.Elts))
		for i, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				k := kv.Key
				if !isStruct {
					k = c.rv(k)
				}
				elts[i] = &ast.KeyValueExpr{Key: k, Value: c.rv(kv.Value)}
			} else {
				elts[i] = c.rv(x)
			}
		}
		return &ast.CompositeLit{Type: e.Type, Elts: elts}
	case *ast.FuncLit:
		c.block(e.Body)
		return e
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: c.rv(e.X), Type: e.Type}
	case *ast.CallExpr:
		return c.callExpr(e)
	case *ast.KeyValueExpr:
		return &ast.KeyValueExpr{Key: e.Key, Value: c.rv(e.Value)}
	}
	return e
}

// addrOrValue rewrites the operand of a selection or indexing that is not
// itself shared memory.
func (c *ctx) addrOrValue(e ast.Expr) ast.Expr {
	if tv, ok := c.info.Types[e]; ok && tv.Addressable() && !isPtr(tv.Type) {
		if _, isSlice := under(tv.Type).(*types.Slice); !isSlice {
			return c.addr(e)
		}
	}
	return c.rv(e)
}

// addr rewrites e where its address is taken or it is stored to: inner loads
// are hooked, the place itself is not.
func (c *ctx) addr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident:
		return e
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: c.addr(e.X)}
	case *ast.SelectorExpr:
		sel := c.info.Selections[e]
		if sel == nil {
			return e
		}
		if sel.Kind() != types.FieldVal {
			return c.rv(e)
		}
		if isPtr(c.typeOf(e.X)) {
			return &ast.SelectorExpr{X: c.rv(e.X), Sel: e.Sel}
		}
		return &ast.SelectorExpr{X: c.addrOrValue(e.X), Sel: e.Sel}
	case *ast.IndexExpr:
		tv := c.info.Types[e.X]
		switch under(tv.Type).(type) {
		case *types.Array:
			return &ast.IndexExpr{X: c.addrOrValue(e.X), Index: c.rv(e.Index)}
		case *types.Signature:
			return e
		case *types.Map:
			return c.mapIndex(e, "MapW")
		}
		return &ast.IndexExpr{X: c.rv(e.X), Index: c.rv(e.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: c.rv(e.X)}
	}
	return c.rv(e)
}

func (c *ctx) mapIndex(e *ast.IndexExpr, hook string) ast.Expr {
	m := c.rv(e.X)
	if c.mem {
		m = call(hook, c.site(e, hook+" "+types.ExprString(e)), m)
	}
	return &ast.IndexExpr{X: m, Index: c.rv(e.Index)}
}

// recv rewrites the receiver of a method call or method value.
func (c *ctx) recv(e *ast.SelectorExpr, sel *types.Selection) ast.Expr {
	t := c.typeOf(e.X)
	if tv, ok := c.info.Types[e.X]; ok && tv.IsType() {
		return e.X
	}
	if _, isTP := t.(*types.TypeParam); isTP {
		return c.addr(e.X)
	}
	if isPtr(t) || types.IsInterface(t) {
		return c.rv(e.X)
	}
	if recvIsPtr(sel) || len(sel.Index()) > 1 {
		return c.addr(e.X)
	}
	return c.rv(e.X)
}

func (c *ctx) pkgOf(e *ast.SelectorExpr) string {
	id, ok := e.X.(*ast.Ident)
	if !ok {
		return ""
	}
	pn, ok := c.info.Uses[id].(*types.PkgName)
	if !ok {
		return ""
	}
	return pn.Imported().Path()
}

func (c *ctx) replacePkgFunc(e *ast.SelectorExpr) ast.Expr {
	switch c.pkgOf(e) {
	case "runtime":
		switch e.Sel.Name {
		case "GOMAXPROCS", "NumCPU", "NumGoroutine", "Gosched":
			return &ast.SelectorExpr{X: ast.NewIdent(rt), Sel: e.Sel}
		}
	case "time":
		switch e.Sel.Name {
		case "Now", "Since", "Until", "Sleep", "NewTimer", "AfterFunc", "After":
			c.needStime = true
			return &ast.SelectorExpr{X: ast.NewIdent("simstime"), Sel: e.Sel}
		}
	}
	return nil
}

func (c *ctx) fun(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: c.fun(e.X)}
	case *ast.Ident:
		if _, ok := c.info.Uses[e].(*types.Func); ok {
			return e
		}
	}
	return c.rv(e)
}

func (c *ctx) callExpr(e *ast.CallExpr) ast.Expr {
	tv := c.info.Types[e.Fun]
	if tv.IsType() {
		return &ast.CallExpr{Fun: e.Fun, Args: c.exprs(e.Args)}
	}
	if tv.IsBuiltin() {
		return c.builtin(e)
	}
	out := &ast.CallExpr{Fun: c.fun(e.Fun), Args: c.exprs(e.Args)}
	if e.Ellipsis.IsValid() {
		out.Ellipsis = 1
	}
	return out
}

func (c *ctx) builtin(e *ast.CallExpr) ast.Expr {
	name := ""
	switch f := e.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.ParenExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			name = id.Name
		}
	default:
		return e // unsafe.X
	}
	plain := func() ast.Expr {
		out := &ast.CallExpr{Fun: e.Fun, Args: c.exprs(e.Args)}
		if e.Ellipsis.IsValid() {
			out.Ellipsis = 1
		}
		return out
	}
	switch name {
	case "append":
		if !c.mem || len(e.Args) < 2 {
			return plain()
		}
		t := under(c.typeOf(e.Args[0]))
		if _, ok := t.(*types.Slice); !ok {
			return plain()
		}
		if tv := c.info.Types[e.Args[0]]; tv.IsNil() {
			return plain()
		}
		a := call("AppendTo", c.site(e, "append "+types.ExprString(e.Args[0])), c.rv(e.Args[0]))
		if e.Ellipsis.IsValid() {
			at := c.typeOf(e.Args[1])
			if _, ok := under(at).(*types.Slice); !ok {
				return plain()
			}
			return method(a, "Spread", c.rv(e.Args[1]))
		}
		return method(a, "Add", c.exprs(e.Args[1:])...)
	case "len", "cap":
		switch under(c.typeOf(e.Args[0])).(type) {
		case *types.Chan:
			if name == "len" {
				return call("Len", c.rv(e.Args[0]))
			}
		case *types.Array:
			return &ast.CallExpr{Fun: e.Fun, Args: []ast.Expr{c.addrOrValue(e.Args[0])}}
		case *types.Map:
			if c.mem {
				return &ast.CallExpr{Fun: e.Fun, Args: []ast.Expr{call("MapR", c.site(e, "len"), c.rv(e.Args[0]))}}
			}
		}
		return plain()
	case "close":
		return call("Close", c.rv(e.Args[0]))
	case "copy":
		if _, ok := under(c.typeOf(e.Args[1])).(*types.Slice); !ok || !c.mem {
			return plain()
		}
		return call("Copy", c.site(e, "copy"), c.rv(e.Args[0]), c.rv(e.Args[1]))
	case "delete":
		m := c.rv(e.Args[0])
		if c.mem {
			m = call("MapW", c.site(e, "delete"), m)
		}
		return &ast.CallExpr{Fun: e.Fun, Args: []ast.Expr{m, c.rv(e.Args[1])}}
	case "new":
		return e
	}
	return plain()
}

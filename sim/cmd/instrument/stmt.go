package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

func (c *ctx) genDecl(d *ast.GenDecl) {
	d.Doc = nil
	for _, s := range d.Specs {
		if v, ok := s.(*ast.ValueSpec); ok {
			v.Doc, v.Comment = nil, nil
			if d.Tok == token.VAR {
				v.Values = c.exprs(v.Values)
				if len(v.Values) == 0 {
					v.Values = nil
				}
				if len(v.Names) == 2 && len(v.Values) == 1 {
					v.Values[0] = recv2(v.Values[0])
				}
			}
		}
	}
}

// recv2 turns a rewritten single-value receive into the two-value form.
func recv2(e ast.Expr) ast.Expr {
	if k, ok := e.(*ast.CallExpr); ok {
		if s, ok := k.Fun.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && id.Name == rt && s.Sel.Name == "Recv" {
				s.Sel = ast.NewIdent("Recv2")
			}
		}
	}
	return e
}

func (c *ctx) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = c.stmts(b.List)
	}
}

func (c *ctx) stmts(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		out = append(out, c.stmt(s)...)
	}
	return out
}

// simple rewrites a statement in an Init or Post position, where it must stay
// one simple statement.
func (c *ctx) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	r := c.stmt(s)
	return r[0] // later hooks, if any, only note redeclared variables
}

func one(s ast.Stmt) []ast.Stmt { return []ast.Stmt{s} }

func (c *ctx) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.ExprStmt:
		return one(&ast.ExprStmt{X: c.rv(s.X)})
	case *ast.SendStmt:
		return one(&ast.ExprStmt{X: method(call("S", c.rv(s.Chan)), "Send", c.rv(s.Value))})
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		if c.isMem(s.X) && !hasCall(s.X) {
			return one(c.store(s.X, &ast.BinaryExpr{X: c.rv(s.X), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}))
		}
		return one(&ast.IncDecStmt{X: c.rwPlace(s.X), Tok: s.Tok})
	case *ast.AssignStmt:
		return c.assign(s)
	case *ast.GoStmt:
		return one(c.goStmt(s))
	case *ast.DeferStmt:
		k, ok := c.rv(s.Call).(*ast.CallExpr)
		if !ok {
			return one(s)
		}
		return one(&ast.DeferStmt{Call: k})
	case *ast.ReturnStmt:
		return one(&ast.ReturnStmt{Results: c.exprs(s.Results)})
	case *ast.BlockStmt:
		c.block(s)
		return one(s)
	case *ast.IfStmt:
		s.Init = c.simple(s.Init)
		if c.isConst(s.Cond) {
			if v := c.info.Types[s.Cond].Value.String(); v == "false" {
				// Dead code: leave it as it is.
				s.Else = c.elseStmt(s.Else)
				return one(s)
			}
		}
		s.Cond = c.rv(s.Cond)
		c.block(s.Body)
		s.Else = c.elseStmt(s.Else)
		return one(s)
	case *ast.ForStmt:
		s.Init = c.simple(s.Init)
		s.Cond = c.rv(s.Cond)
		s.Post = c.simple(s.Post)
		c.block(s.Body)
		s.Body.List = append(one(c.stmtCall("Tick")), s.Body.List...)
		return one(s)
	case *ast.RangeStmt:
		return c.rangeStmt(s, nil)
	case *ast.SwitchStmt:
		s.Init = c.simple(s.Init)
		s.Tag = c.rv(s.Tag)
		c.clauses(s.Body)
		return one(s)
	case *ast.TypeSwitchStmt:
		s.Init = c.simple(s.Init)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			s.Assign = &ast.ExprStmt{X: c.rv(a.X)}
		case *ast.AssignStmt:
			s.Assign = &ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: c.exprs(a.Rhs)}
		}
		c.clauses(s.Body)
		return one(s)
	case *ast.SelectStmt:
		return c.selectStmt(s, nil)
	case *ast.LabeledStmt:
		switch in := s.Stmt.(type) {
		case *ast.RangeStmt:
			return c.rangeStmt(in, s.Label)
		case *ast.SelectStmt:
			return c.selectStmt(in, s.Label)
		}
		r := c.stmt(s.Stmt)
		out := one(&ast.LabeledStmt{Label: s.Label, Stmt: r[0]})
		return append(out, r[1:]...)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			c.genDecl(g)
		}
		return one(s)
	}
	return one(s)
}

func (c *ctx) elseStmt(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return c.stmt(s)[0]
}

func (c *ctx) clauses(b *ast.BlockStmt) {
	for _, s := range b.List {
		if k, ok := s.(*ast.CaseClause); ok {
			k.List = c.exprs(k.List)
			if len(k.List) == 0 {
				k.List = nil
			}
			k.Body = c.stmts(k.Body)
		}
	}
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

// store builds the statement that stores v (already rewritten) into the shared
// place l.
func (c *ctx) store(l ast.Expr, v ast.Expr) ast.Stmt {
	return &ast.ExprStmt{X: method(call("At", c.site(l, "store "+types.ExprString(l)), addrOf(c.addr(l))), "Set", v)}
}

// rwPlace is a place for an operation that reads and writes it in one go.
func (c *ctx) rwPlace(l ast.Expr) ast.Expr {
	if c.isMem(l) {
		return &ast.StarExpr{X: call("RW", c.site(l, "update "+types.ExprString(l)), addrOf(c.addr(l)))}
	}
	return c.addr(l)
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (c *ctx) isMapIndex(e ast.Expr) bool {
	if p, ok := e.(*ast.ParenExpr); ok {
		return c.isMapIndex(p.X)
	}
	x, ok := e.(*ast.IndexExpr)
	if !ok {
		return false
	}
	_, ok = under(c.typeOf(x.X)).(*types.Map)
	return ok
}

var assignOp = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND,
	token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
	token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func (c *ctx) assign(s *ast.AssignStmt) []ast.Stmt {
	rhs := func() []ast.Expr {
		r := c.exprs(s.Rhs)
		if len(s.Lhs) == 2 && len(r) == 1 {
			r[0] = recv2(r[0])
		}
		return r
	}
	switch s.Tok {
	case token.DEFINE:
		out := one(&ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: rhs()})
		for _, l := range s.Lhs {
			id := l.(*ast.Ident)
			if c.info.Defs[id] == nil && id.Name != "_" && c.isMem(id) {
				out = append(out, c.stmtCall("W", c.site(id, "store "+id.Name), addrOf(ast.NewIdent(id.Name))))
			}
		}
		return out
	case token.ASSIGN:
		if len(s.Lhs) == 1 {
			l := s.Lhs[0]
			if isBlank(l) {
				return one(&ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: rhs()})
			}
			if !c.isMapIndex(l) && c.isMem(l) {
				return one(c.store(l, rhs()[0]))
			}
			return one(&ast.AssignStmt{Lhs: []ast.Expr{c.addr(l)}, Tok: s.Tok, Rhs: rhs()})
		}
		anyMem, anyMap := false, false
		for _, l := range s.Lhs {
			if isBlank(l) {
				continue
			}
			if c.isMapIndex(l) {
				anyMap = true
			} else if c.isMem(l) {
				anyMem = true
			}
		}
		commaOK := false
		if len(s.Rhs) == 1 {
			switch ast.Unparen(s.Rhs[0]).(type) {
			case *ast.IndexExpr, *ast.TypeAssertExpr:
				commaOK = true
			}
		}
		if anyMem && !anyMap && !commaOK && len(s.Lhs) <= 3 {
			var refs []ast.Expr
			for _, l := range s.Lhs {
				switch {
				case isBlank(l):
					refs = append(refs, call("Loc", &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{&ast.InterfaceType{Methods: &ast.FieldList{}}}}))
				case c.isMem(l):
					refs = append(refs, call("At", c.site(l, "store "+types.ExprString(l)), addrOf(c.addr(l))))
				default:
					refs = append(refs, call("Loc", addrOf(c.addr(l))))
				}
			}
			name := "Set2"
			if len(s.Lhs) == 3 {
				name = "Set3"
			}
			return one(&ast.ExprStmt{X: &ast.CallExpr{Fun: call(name, refs...), Args: rhs()}})
		}
		var lhs []ast.Expr
		for _, l := range s.Lhs {
			if isBlank(l) {
				lhs = append(lhs, l)
			} else {
				lhs = append(lhs, c.addr(l))
			}
		}
		out := one(&ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: rhs()})
		for _, l := range s.Lhs {
			if id, ok := l.(*ast.Ident); ok && !isBlank(l) && c.isMem(id) {
				out = append(out, c.stmtCall("W", c.site(id, "store "+id.Name), addrOf(ast.NewIdent(id.Name))))
			}
		}
		return out
	}
	// op=
	l := s.Lhs[0]
	if !c.isMapIndex(l) && c.isMem(l) && !hasCall(l) {
		v := &ast.BinaryExpr{X: c.rv(l), Op: assignOp[s.Tok], Y: &ast.ParenExpr{X: rhs()[0]}}
		return one(c.store(l, v))
	}
	return one(&ast.AssignStmt{Lhs: []ast.Expr{c.rwPlaceOrMap(l)}, Tok: s.Tok, Rhs: rhs()})
}

func (c *ctx) rwPlaceOrMap(l ast.Expr) ast.Expr {
	if c.isMapIndex(l) {
		return c.addr(l)
	}
	return c.rwPlace(l)
}

func (c *ctx) goStmt(s *ast.GoStmt) ast.Stmt {
	site := c.site(s, "go")
	k := s.Call
	if lit, ok := k.Fun.(*ast.FuncLit); ok && len(k.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		return c.stmtCall("Go", site, c.rv(lit))
	}
	var pre []ast.Stmt
	hoist := func(e ast.Expr) ast.Expr {
		tv := c.info.Types[e]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			return e
		}
		id := c.temp("g")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{c.rv(e)}})
		return id
	}
	if tv := c.info.Types[k.Fun]; tv.IsBuiltin() || tv.IsType() {
		return c.stmtCall("Go", site, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: one(&ast.ExprStmt{X: c.rv(k)})}})
	}
	fun := k.Fun
	isFunc := false
	switch f := ast.Unparen(fun).(type) {
	case *ast.Ident:
		_, isFunc = c.info.Uses[f].(*types.Func)
	case *ast.IndexExpr, *ast.IndexListExpr:
		_, isFunc = under(c.typeOf(fun)).(*types.Signature)
	case *ast.SelectorExpr:
		isFunc = c.info.Selections[f] == nil
	}
	out := &ast.CallExpr{}
	if isFunc {
		out.Fun = fun
	} else {
		out.Fun = hoist(fun)
	}
	// A single multi-value argument f(g()) cannot be hoisted one by one.
	if len(k.Args) == 1 {
		if _, ok := c.typeOf(k.Args[0]).(*types.Tuple); ok {
			out.Args = c.exprs(k.Args)
			return c.stmtCall("Go", site, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: one(&ast.ExprStmt{X: out})}})
		}
	}
	for _, a := range k.Args {
		out.Args = append(out.Args, hoist(a))
	}
	if k.Ellipsis.IsValid() {
		out.Ellipsis = 1
	}
	pre = append(pre, c.stmtCall("Go", site, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: one(&ast.ExprStmt{X: out})}}))
	return &ast.BlockStmt{List: pre}
}

func (c *ctx) rangeStmt(s *ast.RangeStmt, label *ast.Ident) []ast.Stmt {
	wrap := func(pre []ast.Stmt, loop ast.Stmt) []ast.Stmt {
		if label != nil {
			loop = &ast.LabeledStmt{Label: label, Stmt: loop}
		}
		if len(pre) == 0 {
			return one(loop)
		}
		return one(&ast.BlockStmt{List: append(pre, loop)})
	}
	tick := c.stmtCall("Tick")
	t := c.typeOf(s.X)
	hasVal := s.Value != nil && !isBlank(s.Value)
	key := s.Key
	if key != nil && isBlank(key) {
		key = nil
	}
	switch ut := under(t).(type) {
	case *types.Chan:
		x := c.temp("x")
		pre := one(&ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.DEFINE, Rhs: []ast.Expr{c.rv(s.X)}})
		ok := c.temp("ok")
		v := c.temp("v")
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call("Recv2", x)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: one(&ast.BranchStmt{Tok: token.BREAK})}},
		}
		if key != nil {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: s.Tok, Rhs: []ast.Expr{v}})
		} else {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
		}
		c.block(s.Body)
		body = append(body, s.Body)
		return wrap(pre, &ast.ForStmt{Body: &ast.BlockStmt{List: body}})
	case *types.Map:
		x := c.temp("x")
		pre := one(&ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.DEFINE, Rhs: []ast.Expr{c.rv(s.X)}})
		k, ok := c.temp("k"), c.temp("ok")
		var body []ast.Stmt
		val := ast.Expr(ast.NewIdent("_"))
		var v *ast.Ident
		if hasVal {
			v = c.temp("v")
			val = v
		}
		m := ast.Expr(x)
		site := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
		if c.mem {
			site = c.site(s, "range map")
			m = call("MapR", site, x)
		}
		body = append(body,
			&ast.AssignStmt{Lhs: []ast.Expr{val, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: k}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: one(&ast.BranchStmt{Tok: token.CONTINUE})}},
		)
		if key != nil {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: s.Tok, Rhs: []ast.Expr{k}})
		}
		if hasVal {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: s.Tok, Rhs: []ast.Expr{v}})
		}
		c.block(s.Body)
		body = append(body, s.Body)
		return wrap(pre, &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: call("MapKeys", site, x), Body: &ast.BlockStmt{List: append(one(tick), body...)}})
	case *types.Slice, *types.Pointer:
		if _, isTP := t.(*types.TypeParam); isTP {
			break
		}
		if p, ok := ut.(*types.Pointer); ok {
			if _, ok := under(p.Elem()).(*types.Array); !ok {
				break
			}
		}
		if !hasVal || !c.mem || s.Tok != token.DEFINE {
			break
		}
		x := c.temp("x")
		pre := one(&ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.DEFINE, Rhs: []ast.Expr{c.rv(s.X)}})
		site := c.site(s.X, "range "+types.ExprString(s.X))
		var idx ast.Expr
		if key == nil {
			k := c.temp("i")
			s.Key = k
			idx = k
		} else {
			idx = ast.NewIdent(key.(*ast.Ident).Name)
		}
		s.X = x
		c.block(s.Body)
		touch := c.stmtCall("R", site, addrOf(&ast.IndexExpr{X: x, Index: idx}))
		s.Body.List = append([]ast.Stmt{tick, touch}, s.Body.List...)
		return wrap(pre, s)
	case *types.Array:
		if !hasVal {
			s.X = c.addrOrValue(s.X)
		} else {
			s.X = c.rv(s.X)
		}
		c.block(s.Body)
		s.Body.List = append(one(tick), s.Body.List...)
		return wrap(nil, s)
	}
	s.X = c.rv(s.X)
	if s.Tok == token.ASSIGN {
		if s.Key != nil && !isBlank(s.Key) {
			s.Key = c.addr(s.Key)
		}
		if s.Value != nil && !isBlank(s.Value) {
			s.Value = c.addr(s.Value)
		}
	}
	c.block(s.Body)
	s.Body.List = append(one(tick), s.Body.List...)
	return wrap(nil, s)
}

func (c *ctx) selectStmt(s *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	var pre []ast.Stmt
	var cases []ast.Expr
	sel := c.temp("sel")
	hasDefault := "false"
	sw := &ast.SwitchStmt{Tag: &ast.SelectorExpr{X: sel, Sel: ast.NewIdent("I")}, Body: &ast.BlockStmt{}}
	for _, cl := range s.Body.List {
		cc := cl.(*ast.CommClause)
		n := len(cases)
		clause := &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: itoa(n)}}}
		var head []ast.Stmt
		recvFrom := func(e ast.Expr) *ast.Ident {
			u := ast.Unparen(e).(*ast.UnaryExpr)
			x := c.temp("c")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.DEFINE, Rhs: []ast.Expr{call("F", c.rv(u.X))}})
			cases = append(cases, method(x, "Case"))
			return x
		}
		switch cm := cc.Comm.(type) {
		case nil:
			hasDefault = "true"
			clause.List = nil
		case *ast.SendStmt:
			x := c.temp("c")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.DEFINE, Rhs: []ast.Expr{
				method(call("S", c.rv(cm.Chan)), "Case", c.rv(cm.Value)),
			}})
			cases = append(cases, x)
		case *ast.ExprStmt:
			recvFrom(cm.X)
		case *ast.AssignStmt:
			x := recvFrom(cm.Rhs[0])
			get := method(x, "Get", sel)
			lhs := append([]ast.Expr(nil), cm.Lhs...)
			if len(lhs) == 1 {
				lhs = append(lhs, ast.NewIdent("_"))
			}
			if cm.Tok == token.ASSIGN {
				for i, l := range lhs {
					if !isBlank(l) {
						lhs[i] = c.addr(l)
					}
				}
			}
			tok := cm.Tok
			if tok == token.DEFINE {
				all := true
				for _, l := range lhs {
					if !isBlank(l) {
						all = false
					}
				}
				if all {
					tok = token.ASSIGN
				}
			}
			head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: []ast.Expr{get}})
		}
		clause.Body = append(head, c.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, clause)
	}
	if hasDefault == "false" {
		// Keeps a select that ends its function a terminating statement.
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: one(&ast.ExprStmt{X: &ast.CallExpr{
			Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"select"`}},
		}})})
	}
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{sel}, Tok: token.DEFINE, Rhs: []ast.Expr{
		call("Select", append([]ast.Expr{ast.NewIdent(hasDefault)}, cases...)...),
	}})
	var loop ast.Stmt = sw
	if label != nil {
		loop = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return one(&ast.BlockStmt{List: append(pre, loop)})
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + itoa(n%10)
}

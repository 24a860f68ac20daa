package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"strings"
)

const rtName = "simrt__"

func (r *pkgRW) rt(name string) ast.Expr {
	r.usesP = true
	return &ast.SelectorExpr{X: ast.NewIdent(rtName), Sel: ast.NewIdent(name)}
}

func (r *pkgRW) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rt(name), Args: args}
}

func (r *pkgRW) newTmp(p string) string {
	r.tmp++
	return fmt.Sprintf("sim%s__%d", p, r.tmp)
}

func (r *pkgRW) fieldList(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = r.expr(f.Type)
	}
}

func (r *pkgRW) funcType(t *ast.FuncType) {
	if t == nil {
		return
	}
	r.fieldList(t.TypeParams)
	r.fieldList(t.Params)
	r.fieldList(t.Results)
}

func (r *pkgRW) funcDecl(d *ast.FuncDecl) { r.block(d.Body) }

func (r *pkgRW) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *pkgRW) pstmt() ast.Stmt { return &ast.ExprStmt{X: r.call("P")} }

func (r *pkgRW) stmts(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if r.yield {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.BlockStmt:
			case *ast.DeclStmt:
			default:
				out = append(out, r.pstmt())
			}
		}
		out = append(out, r.stmt(s, "")...)
	}
	return out
}

// stmt rewrites one statement; label is the label it carries, if any.
func (r *pkgRW) stmt(s ast.Stmt, label string) []ast.Stmt {
	wrap := func(s ast.Stmt) ast.Stmt {
		if label != "" {
			return &ast.LabeledStmt{Label: ast.NewIdent(label), Stmt: s}
		}
		return s
	}
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		return r.stmt(s.Stmt, s.Label.Name)
	case *ast.BlockStmt:
		r.block(s)
		return []ast.Stmt{wrap(s)}
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		ch, v := r.expr(s.Chan), r.expr(s.Value)
		return []ast.Stmt{wrap(&ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("Send", ch), Args: []ast.Expr{v}}})}
	case *ast.IncDecStmt:
		shared := r.yield && r.sharedLvalue(s.X)
		isMap := r.isMapIndex(s.X)
		tok := token.ADD
		if s.Tok == token.DEC {
			tok = token.SUB
		}
		if shared && !isMap && label == "" {
			x := r.expr(s.X)
			return []ast.Stmt{r.splitRMW(x, tok, &ast.BasicLit{Kind: token.INT, Value: "1"})}
		}
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		if op, ok := assignOps[s.Tok]; ok && r.yield && len(s.Lhs) == 1 && label == "" && r.sharedLvalue(s.Lhs[0]) && !r.isMapIndex(s.Lhs[0]) && op != token.SHL && op != token.SHR {
			y := r.expr(s.Rhs[0])
			x := r.expr(s.Lhs[0])
			return []ast.Stmt{r.splitRMW(x, op, &ast.ParenExpr{X: y})}
		}
		// v, ok := <-ch
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				for i := range s.Lhs {
					s.Lhs[i] = r.expr(s.Lhs[i])
				}
				s.Rhs[0] = r.call("Recv2", r.expr(u.X))
				return []ast.Stmt{wrap(s)}
			}
		}
		for i := range s.Lhs {
			s.Lhs[i] = r.expr(s.Lhs[i])
		}
		for i := range s.Rhs {
			s.Rhs[i] = r.expr(s.Rhs[i])
		}
	case *ast.GoStmt:
		return []ast.Stmt{wrap(r.goStmt(s))}
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i])
		}
	case *ast.BranchStmt, *ast.EmptyStmt:
	case *ast.IfStmt:
		s.Init = r.one(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			e := r.stmt(s.Else, "")
			s.Else = e[0]
			if len(e) != 1 {
				die("else with several statements")
			}
			switch s.Else.(type) {
			case *ast.BlockStmt, *ast.IfStmt:
			default:
				s.Else = &ast.BlockStmt{List: []ast.Stmt{s.Else}}
			}
		}
	case *ast.SwitchStmt:
		s.Init = r.one(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.stmts(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		s.Init = r.one(s.Init)
		s.Assign = r.one(s.Assign)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i])
			}
			cc.Body = r.stmts(cc.Body)
		}
	case *ast.SelectStmt:
		return []ast.Stmt{r.selectStmt(s, label)}
	case *ast.ForStmt:
		s.Init = r.one(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		if s.Post != nil {
			save := r.yield
			r.yield = false
			s.Post = r.one(s.Post)
			r.yield = save
		}
		r.block(s.Body)
		r.loopP(s.Body)
	case *ast.RangeStmt:
		return []ast.Stmt{r.rangeStmt(s, label)}
	case *ast.DeclStmt:
		g := s.Decl.(*ast.GenDecl)
		for _, sp := range g.Specs {
			switch sp := sp.(type) {
			case *ast.ValueSpec:
				if sp.Type != nil {
					sp.Type = r.expr(sp.Type)
				}
				if len(sp.Names) == 2 && len(sp.Values) == 1 {
					if u, ok := unparen(sp.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						sp.Values[0] = r.call("Recv2", r.expr(u.X))
						continue
					}
				}
				for i := range sp.Values {
					sp.Values[i] = r.expr(sp.Values[i])
				}
			case *ast.TypeSpec:
				sp.Type = r.expr(sp.Type)
			}
		}
	default:
		die("unknown statement %T at %s", s, r.fset.Position(s.Pos()))
	}
	return []ast.Stmt{wrap(s)}
}

func (r *pkgRW) loopP(b *ast.BlockStmt) {
	if r.yield && len(b.List) == 0 {
		b.List = []ast.Stmt{r.pstmt()}
	}
}

func (r *pkgRW) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	save := r.yield
	r.yield = false
	defer func() { r.yield = save }()
	// function literals inside still get yields
	o := r.withLit(save, s)
	return o
}

func (r *pkgRW) withLit(y bool, s ast.Stmt) ast.Stmt {
	r.litYield = append(r.litYield, y)
	defer func() { r.litYield = r.litYield[:len(r.litYield)-1] }()
	o := r.stmt(s, "")
	if len(o) != 1 {
		die("init statement became several")
	}
	return o[0]
}

var assignOps = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.AND_NOT_ASSIGN: token.AND_NOT,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR,
}

// splitRMW makes { p := &x; t := *p; P(); *p = t op y }.
func (r *pkgRW) splitRMW(x ast.Expr, op token.Token, y ast.Expr) ast.Stmt {
	p, t := r.newTmp("p"), r.newTmp("t")
	id := ast.NewIdent
	def := func(n string, e ast.Expr) ast.Stmt {
		return &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
	}
	return &ast.BlockStmt{List: []ast.Stmt{
		def(p, &ast.UnaryExpr{Op: token.AND, X: x}),
		def(t, &ast.StarExpr{X: id(p)}),
		r.pstmt(),
		&ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: id(p)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: id(t), Op: op, Y: y}}},
	}}
}

// sharedLvalue: could another goroutine see the location? (not a local variable)
func (r *pkgRW) sharedLvalue(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		o := r.info.Uses[e]
		v, ok := o.(*types.Var)
		return ok && v.Parent() == r.pkg.Scope()
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				return true
			}
		}
		t := r.info.TypeOf(e.X)
		if t == nil {
			return false
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return true
		}
		return r.sharedLvalue(e.X)
	case *ast.IndexExpr:
		t := r.info.TypeOf(e.X)
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Pointer:
			return true
		}
		return r.sharedLvalue(e.X)
	case *ast.StarExpr:
		return true
	}
	return false
}

func (r *pkgRW) isMapIndex(e ast.Expr) bool {
	ix, ok := unparen(e).(*ast.IndexExpr)
	if !ok {
		return false
	}
	t := r.info.TypeOf(ix.X)
	if t == nil {
		return false
	}
	_, ok = t.Underlying().(*types.Map)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *pkgRW) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	var pre []ast.Stmt
	// function value
	fun := c.Fun
	if fl, ok := unparen(fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		f := r.expr(fl)
		return &ast.ExprStmt{X: r.call("Go", r.asThunk(f))}
	}
	direct := false
	switch f := unparen(fun).(type) {
	case *ast.Ident:
		switch r.info.Uses[f].(type) {
		case *types.Func, *types.Builtin, *types.TypeName:
			direct = true
		}
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				if _, ok := r.info.Uses[f.Sel].(*types.Func); ok {
					direct = true
				}
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		direct = true
	}
	isClose := r.isBuiltin(fun, "close")
	var args []ast.Expr
	var lhs, rhs []ast.Expr
	if !direct {
		n := r.newTmp("f")
		lhs = append(lhs, ast.NewIdent(n))
		rhs = append(rhs, r.expr(fun))
		fun = ast.NewIdent(n)
	} else if isClose {
		fun = r.rt("Close")
	} else {
		fun = r.expr(fun)
	}
	for _, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args = append(args, r.expr(a))
			continue
		}
		if _, ok := tv.Type.(*types.Tuple); ok { // f(g()) with several results
			die("go f(g()) with a multi-value call at %s", r.fset.Position(s.Pos()))
		}
		n := r.newTmp("a")
		lhs = append(lhs, ast.NewIdent(n))
		rhs = append(rhs, r.expr(a))
		args = append(args, ast.NewIdent(n))
	}
	for i := range lhs {
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{lhs[i]}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs[i]}})
	}
	call := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		call.Ellipsis = 1
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	pre = append(pre, &ast.ExprStmt{X: r.call("Go", lit)})
	return &ast.BlockStmt{List: pre}
}

// asThunk: a func literal with results is wrapped.
func (r *pkgRW) asThunk(f ast.Expr) ast.Expr {
	fl, ok := f.(*ast.FuncLit)
	if ok && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return f
	}
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: f}}}}}
}

func (r *pkgRW) isBuiltin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *pkgRW) selectStmt(s *ast.SelectStmt, label string) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.ExprStmt{X: r.call("BlockForever")}
	}
	var pre []ast.Stmt
	var ops []ast.Expr
	hasDef := false
	type cl struct {
		tmp  string
		comm ast.Stmt
		body []ast.Stmt
	}
	var cls []cl
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			cls = append(cls, cl{"", nil, cc.Body})
			continue
		}
		n := r.newTmp("op")
		var op ast.Expr
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			op = &ast.CallExpr{Fun: r.call("NewSend", r.expr(m.Chan)), Args: []ast.Expr{r.expr(m.Value)}}
		case *ast.ExprStmt:
			op = r.call("NewRecv", r.expr(unparen(m.X).(*ast.UnaryExpr).X))
		case *ast.AssignStmt:
			op = r.call("NewRecv", r.expr(unparen(m.Rhs[0]).(*ast.UnaryExpr).X))
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{op}})
		ops = append(ops, ast.NewIdent(n))
		cls = append(cls, cl{n, cc.Comm, cc.Body})
	}
	args := append([]ast.Expr{ast.NewIdent(fmt.Sprint(hasDef))}, ops...)
	sw := &ast.SwitchStmt{Tag: r.call("Select", args...), Body: &ast.BlockStmt{}}
	k := 0
	for i, c := range cls {
		cc := &ast.CaseClause{}
		isDefault := c.comm == nil
		if !hasDef && i == len(cls)-1 {
			isDefault = true // keeps "terminating statement" analysis
		}
		if !isDefault {
			cc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(k)}}
		}
		if c.comm != nil {
			k++
			if as, ok := c.comm.(*ast.AssignStmt); ok {
				var lhs []ast.Expr
				for _, l := range as.Lhs {
					lhs = append(lhs, r.expr(l))
				}
				var rhs []ast.Expr
				id := func() ast.Expr { return ast.NewIdent(c.tmp) }
				rhs = append(rhs, &ast.SelectorExpr{X: id(), Sel: ast.NewIdent("V")})
				if len(lhs) == 2 {
					rhs = append(rhs, &ast.SelectorExpr{X: id(), Sel: ast.NewIdent("OK")})
				}
				cc.Body = append(cc.Body, &ast.AssignStmt{Lhs: lhs, Tok: as.Tok, Rhs: rhs})
			}
		}
		cc.Body = append(cc.Body, r.stmts(c.body)...)
		sw.Body.List = append(sw.Body.List, cc)
	}
	var st ast.Stmt = sw
	if label != "" {
		st = &ast.LabeledStmt{Label: ast.NewIdent(label), Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, st)}
}

func (r *pkgRW) rangeStmt(s *ast.RangeStmt, label string) ast.Stmt {
	wrap := func(s ast.Stmt) ast.Stmt {
		if label != "" {
			return &ast.LabeledStmt{Label: ast.NewIdent(label), Stmt: s}
		}
		return s
	}
	t := r.info.TypeOf(s.X)
	if t == nil {
		die("no type for range at %s", r.fset.Position(s.Pos()))
	}
	id := func(n string) ast.Expr { return ast.NewIdent(n) }
	def := func(n string, e ast.Expr) ast.Stmt {
		return &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		i, ok := e.(*ast.Ident)
		return ok && i.Name == "_"
	}
	switch t.Underlying().(type) {
	case *types.Chan:
		x := r.expr(s.X)
		c := r.newTmp("c")
		v, ok := r.newTmp("v"), r.newTmp("ok")
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", id(c))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		if blank(s.Key) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
		} else {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(s.Key)}, Tok: s.Tok, Rhs: []ast.Expr{id(v)}})
		}
		r.block(s.Body)
		body = append(body, &ast.BlockStmt{List: s.Body.List})
		return wrap(&ast.ForStmt{Init: def(c, x), Body: &ast.BlockStmt{List: body}})
	case *types.Map:
		x := r.expr(s.X)
		m := r.newTmp("m")
		k := r.newTmp("k")
		ok := r.newTmp("ok")
		pre := []ast.Stmt{def(m, x)}
		var body []ast.Stmt
		var key ast.Expr = id(k)
		if s.Tok == token.DEFINE {
			kb, vb := blank(s.Key), blank(s.Value)
			switch {
			case !kb && !vb:
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key, s.Value}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("ZeroKV", id(m))}})
			case !kb:
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("ZeroK", id(m))}})
			case !vb:
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id("_"), s.Value}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("ZeroKV", id(m))}})
			}
		}
		tmpv := r.newTmp("v")
		body = append(body,
			&ast.AssignStmt{Lhs: []ast.Expr{id(tmpv), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(m), Index: key}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(tmpv)}},
		)
		if !blank(s.Key) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(k)}})
		}
		if !blank(s.Value) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(s.Value)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(tmpv)}})
		}
		r.block(s.Body)
		body = append(body, &ast.BlockStmt{List: s.Body.List})
		loop := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ast.NewIdent(k), Tok: token.DEFINE, X: r.call("Keys", id(m)), Body: &ast.BlockStmt{List: body}}
		return &ast.BlockStmt{List: append(pre, wrap(loop))}
	}
	s.X = r.expr(s.X)
	if s.Key != nil {
		s.Key = r.expr(s.Key)
	}
	if s.Value != nil {
		s.Value = r.expr(s.Value)
	}
	r.block(s.Body)
	r.loopP(s.Body)
	return wrap(s)
}

// expr rewrites an expression.
func (r *pkgRW) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.BadExpr, *ast.Ident, *ast.BasicLit:
		return e
	case *ast.Ellipsis:
		if e.Elt != nil {
			e.Elt = r.expr(e.Elt)
		}
	case *ast.FuncLit:
		save := r.yield
		if n := len(r.litYield); n > 0 {
			r.yield = r.litYield[n-1]
			r.litYield = append(r.litYield, r.yield)
		} else {
			r.yield = !r.lib
		}
		r.funcType(e.Type)
		lit := r.litYield
		r.litYield = nil
		r.block(e.Body)
		r.litYield = lit
		if n := len(r.litYield); n > 0 {
			r.litYield = r.litYield[:n-1]
		}
		r.yield = save
	case *ast.CompositeLit:
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
		for i := range e.Elts {
			if kv, ok := e.Elts[i].(*ast.KeyValueExpr); ok {
				if _, isID := kv.Key.(*ast.Ident); !isID {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
				continue
			}
			e.Elts[i] = r.expr(e.Elts[i])
		}
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				return r.pkgSel(e, pn)
			}
		}
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
		for i := range e.Indices {
			e.Indices[i] = r.expr(e.Indices[i])
		}
	case *ast.SliceExpr:
		e.X = r.expr(e.X)
		if e.Low != nil {
			e.Low = r.expr(e.Low)
		}
		if e.High != nil {
			e.High = r.expr(e.High)
		}
		if e.Max != nil {
			e.Max = r.expr(e.Max)
		}
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X)
		if e.Type != nil {
			e.Type = r.expr(e.Type)
		}
	case *ast.CallExpr:
		if r.isBuiltin(e.Fun, "close") {
			return r.call("Close", r.expr(e.Args[0]))
		}
		e.Fun = r.expr(e.Fun)
		for i := range e.Args {
			e.Args[i] = r.expr(e.Args[i])
		}
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return r.call("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.KeyValueExpr:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
	case *ast.ArrayType:
		if e.Len != nil {
			e.Len = r.expr(e.Len)
		}
		e.Elt = r.expr(e.Elt)
	case *ast.StructType:
		r.fieldList(e.Fields)
	case *ast.FuncType:
		r.funcType(e)
	case *ast.InterfaceType:
		r.fieldList(e.Methods)
	case *ast.MapType:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
	case *ast.ChanType:
		e.Value = r.expr(e.Value)
	default:
		die("unknown expression %T at %s", e, r.fset.Position(e.Pos()))
	}
	return e
}

func (r *pkgRW) pkgSel(e *ast.SelectorExpr, pn *types.PkgName) ast.Expr {
	path := pn.Imported().Path()
	if strings.HasPrefix(path, "vendor/") {
		path = strings.TrimPrefix(path, "vendor/")
	}
	m := r.over[path]
	kind, ok := m[e.Sel.Name]
	if !ok {
		return e
	}
	alias := "simo_" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(path)
	r.need[path] = alias
	sel := &ast.SelectorExpr{X: ast.NewIdent(alias), Sel: ast.NewIdent(e.Sel.Name)}
	if _, isVar := r.info.Uses[e.Sel].(*types.Var); isVar && kind == "func" {
		return &ast.CallExpr{Fun: sel}
	}
	return sel
}

// stripPos clears all positions so the printer lays the code out afresh.
func stripPos(n ast.Node) {
	posT := reflect.TypeOf(token.Pos(0))
	ast.Inspect(n, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		v := reflect.ValueOf(n)
		if v.Kind() == reflect.Pointer {
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			return true
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() != posT || !f.CanSet() {
				continue
			}
			name := v.Type().Field(i).Name
			// positions that carry meaning for the printer
			keep := (name == "Ellipsis") || (name == "Lparen" || name == "Rparen") && isGen(n) || name == "Assign" && isTypeSpec(n)
			if keep {
				if f.Int() != 0 {
					f.SetInt(1)
				}
				continue
			}
			f.SetInt(0)
		}
		switch x := n.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

func isGen(n ast.Node) bool      { _, ok := n.(*ast.GenDecl); return ok }
func isTypeSpec(n ast.Node) bool { _, ok := n.(*ast.TypeSpec); return ok }

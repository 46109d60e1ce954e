package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"strings"
)

func (w *rewriter) stmts(l []ast.Stmt) string {
	var b strings.Builder
	for _, s := range l {
		b.WriteString(w.stmt(s))
		b.WriteString("\n")
	}
	return b.String()
}

func (w *rewriter) block(b *ast.BlockStmt) string { return "{\n" + w.stmts(b.List) + "}" }

func (w *rewriter) loopBody(b *ast.BlockStmt, pre string) string {
	return "{\nczzrt.Tick()\n" + pre + w.stmts(b.List) + "}"
}

// pure reports whether evaluating e cannot be observed, apart from reading memory.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if id, k := n.Fun.(*ast.Ident); k && (id.Name == "len" || id.Name == "cap") {
				return true
			}
			ok = false
		case *ast.FuncLit:
			return false
		case *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr, *ast.TypeAssertExpr:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// simple renders a simple statement in a position (for/if/switch header) where
// only one statement fits.
func (w *rewriter) simple(s ast.Stmt) string {
	if s == nil {
		return ""
	}
	t, multi := w.simpleStmt(s)
	if multi {
		return "func() {\n" + t + "\n}()"
	}
	return t
}

func (w *rewriter) simpleStmt(s ast.Stmt) (text string, multi bool) {
	switch s := s.(type) {
	case *ast.ExprStmt:
		return w.rv(s.X), false
	case *ast.SendStmt:
		return "czzrt.SendTo(" + w.rv(s.Chan) + ")(" + w.rv(s.Value) + ")", false
	case *ast.EmptyStmt:
		return "", false
	case *ast.IncDecStmt:
		op := "+"
		if s.Tok == token.DEC {
			op = "-"
		}
		if !w.shared(s.X) {
			return w.addr(s.X) + s.Tok.String(), false
		}
		n := w.name("p")
		return fmt.Sprintf("%s := %s\n%s.Set(%s.Get() %s 1)", n, w.at(s.X), n, n, op), true
	case *ast.AssignStmt:
		return w.assign(s)
	}
	fail("%s: unsupported simple statement %T", w.fset.Position(s.Pos()), s)
	return "", false
}

func (w *rewriter) at(e ast.Expr) string {
	if ix, ok := unparen(e).(*ast.IndexExpr); ok && isMap(w.typeOf(ix.X)) {
		return fmt.Sprintf("czzrt.MapAt(%s, %d).At(%s)", w.rv(ix.X), w.newSite(e.Pos()), w.rv(ix.Index))
	}
	f := "At"
	if w.elem(e) {
		f = "AtE"
	}
	return fmt.Sprintf("czzrt.%s(&%s, %d)", f, w.addr(e), w.newSite(e.Pos()))
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// lhs renders an assignment target that is not shared.
func (w *rewriter) lhs(e ast.Expr) string {
	if isBlank(e) {
		return "_"
	}
	return w.addr(e)
}

func (w *rewriter) assign(s *ast.AssignStmt) (string, bool) {
	switch s.Tok {
	case token.DEFINE:
		var l []string
		for _, e := range s.Lhs {
			l = append(l, e.(*ast.Ident).Name)
		}
		return strings.Join(l, ", ") + " := " + w.rvs(s.Rhs), false
	case token.ASSIGN:
		if len(s.Lhs) == 1 {
			if isBlank(s.Lhs[0]) && pure(s.Rhs[0]) && !(w.proc && w.isMain) {
				return w.raw(s), false
			}
			if isBlank(s.Lhs[0]) || !w.shared(s.Lhs[0]) {
				return w.lhs(s.Lhs[0]) + " = " + w.rv(s.Rhs[0]), false
			}
			return w.at(s.Lhs[0]) + ".Set(" + w.rv(s.Rhs[0]) + ")", false
		}
		any := false
		for _, e := range s.Lhs {
			if !isBlank(e) && w.shared(e) {
				any = true
			}
		}
		var l []string
		if !any {
			for _, e := range s.Lhs {
				l = append(l, w.lhs(e))
			}
			return strings.Join(l, ", ") + " = " + w.rvs(s.Rhs), false
		}
		var pre, post strings.Builder
		for _, e := range s.Lhs {
			if isBlank(e) || !w.shared(e) {
				l = append(l, w.lhs(e))
				continue
			}
			p, t := w.name("p"), w.name("t")
			fmt.Fprintf(&pre, "%s := %s\n%s := %s.Zero()\n", p, w.at(e), t, p)
			fmt.Fprintf(&post, "\n%s.Set(%s)", p, t)
			l = append(l, t)
		}
		return pre.String() + strings.Join(l, ", ") + " = " + w.rvs(s.Rhs) + post.String(), true
	default: // op=
		if !w.shared(s.Lhs[0]) {
			return w.addr(s.Lhs[0]) + " " + s.Tok.String() + " " + w.rv(s.Rhs[0]), false
		}
		op := strings.TrimSuffix(s.Tok.String(), "=")
		n := w.name("p")
		// the operator binds the whole right-hand side, so it goes in parentheses
		return fmt.Sprintf("%s := %s\n%s.Set(%s.Get() %s (%s))", n, w.at(s.Lhs[0]), n, n, op, w.rv(s.Rhs[0])), true
	}
}

func (w *rewriter) stmt(s ast.Stmt) string {
	switch s := s.(type) {
	case nil:
		return ""
	case *ast.BadStmt:
		fail("bad statement")
	case *ast.DeclStmt:
		g := s.Decl.(*ast.GenDecl)
		if g.Tok != token.VAR {
			return w.raw(g)
		}
		var b strings.Builder
		for _, sp := range g.Specs {
			b.WriteString("var " + w.valueSpec(sp.(*ast.ValueSpec)) + "\n")
		}
		return b.String()
	case *ast.EmptyStmt:
		return ""
	case *ast.LabeledStmt:
		switch s.Stmt.(type) {
		case *ast.SelectStmt:
			return w.selectStmt(s.Stmt.(*ast.SelectStmt), s.Label.Name+":\n")
		case *ast.ForStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
			return s.Label.Name + ":\n" + w.stmt(s.Stmt)
		case *ast.RangeStmt:
			return w.rangeStmt(s.Stmt.(*ast.RangeStmt), s.Label.Name+":\n")
		}
		return s.Label.Name + ":\nczzrt.Tick()\n" + w.stmt(s.Stmt)
	case *ast.ExprStmt, *ast.SendStmt, *ast.IncDecStmt, *ast.AssignStmt:
		t, multi := w.simpleStmt(s)
		if multi {
			return "{\n" + t + "\n}"
		}
		return t
	case *ast.GoStmt:
		return w.goStmt(s)
	case *ast.DeferStmt:
		return "defer " + w.call(s.Call)
	case *ast.ReturnStmt:
		return "return " + w.rvs(s.Results)
	case *ast.BranchStmt:
		if s.Label != nil {
			return s.Tok.String() + " " + s.Label.Name
		}
		return s.Tok.String()
	case *ast.BlockStmt:
		return w.block(s)
	case *ast.IfStmt:
		t := "if "
		if s.Init != nil {
			t += w.simple(s.Init) + "; "
		}
		t += w.cond(s.Cond) + " " + w.block(s.Body)
		if s.Else != nil {
			t += " else " + w.stmt(s.Else)
		}
		return t
	case *ast.SwitchStmt:
		t := "switch "
		if s.Init != nil {
			t += w.simple(s.Init) + "; "
		}
		if s.Tag != nil {
			t += w.cond(s.Tag)
		}
		return t + " {\n" + w.clauses(s.Body) + "}"
	case *ast.TypeSwitchStmt:
		t := "switch "
		if s.Init != nil {
			t += w.simple(s.Init) + "; "
		}
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			t += a.Lhs[0].(*ast.Ident).Name + " := " + w.rv(a.Rhs[0])
		case *ast.ExprStmt:
			t += w.rv(a.X)
		}
		return t + " {\n" + w.clauses(s.Body) + "}"
	case *ast.SelectStmt:
		return w.selectStmt(s, "")
	case *ast.ForStmt:
		if s.Init == nil && s.Post == nil {
			return "for " + w.cond(s.Cond) + " " + w.loopBody(s.Body, "")
		}
		return "for " + w.simple(s.Init) + "; " + w.cond(s.Cond) + "; " + w.simple(s.Post) + " " + w.loopBody(s.Body, "")
	case *ast.RangeStmt:
		return w.rangeStmt(s, "")
	}
	fail("%s: unsupported statement %T", w.fset.Position(s.Pos()), s)
	return ""
}

// cond renders a header expression; parentheses keep composite literals apart
// from the block that follows.
func (w *rewriter) cond(e ast.Expr) string {
	if e == nil {
		return ""
	}
	return "(" + w.rv(e) + ")"
}

func (w *rewriter) clauses(b *ast.BlockStmt) string {
	var t strings.Builder
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			t.WriteString("default:\n")
		} else {
			t.WriteString("case " + w.rvs(cc.List) + ":\n")
		}
		t.WriteString(w.stmts(cc.Body))
	}
	return t.String()
}

func (w *rewriter) goStmt(s *ast.GoStmt) string {
	var pre strings.Builder
	var args []string
	for _, a := range s.Call.Args {
		if tv := w.info.Types[a]; tv.Value != nil || tv.IsNil() {
			args = append(args, w.raw(a))
			continue
		}
		n := w.name("a")
		fmt.Fprintf(&pre, "%s := %s\n", n, w.rv(a))
		args = append(args, n)
	}
	ell := ""
	if s.Call.Ellipsis.IsValid() {
		ell = "..."
	}
	f := w.name("f")
	fmt.Fprintf(&pre, "%s := %s\n", f, w.fun(s.Call.Fun))
	return "{\n" + pre.String() + "czzrt.Go(func() { " + f + "(" + strings.Join(args, ", ") + ell + ") })\n}"
}

func (w *rewriter) rangeStmt(s *ast.RangeStmt, label string) string {
	t := w.typeOf(s.X)
	hasKey := s.Key != nil && !isBlank(s.Key)
	hasVal := s.Value != nil && !isBlank(s.Value)
	// in a module before go 1.22 the variables belong to the loop, not to the turn
	outer := s.Tok == token.DEFINE && w.loopVars
	bind := func(target ast.Expr, val string) string {
		switch {
		case outer:
			return target.(*ast.Ident).Name + " = " + val + "\n"
		case s.Tok == token.DEFINE:
			return target.(*ast.Ident).Name + " := " + val + "\n"
		case w.shared(target):
			return w.at(target) + ".Set(" + val + ")\n"
		}
		return w.lhs(target) + " = " + val + "\n"
	}
	declare := func(init, key, val string) (pre, post string) {
		pre = init
		if outer {
			if hasKey {
				pre += s.Key.(*ast.Ident).Name + " := " + key + "\n"
			}
			if hasVal {
				pre += s.Value.(*ast.Ident).Name + " := " + val + "\n"
			}
		}
		return "{\n" + pre, "\n}"
	}
	switch {
	case isSlice(t):
		sl, k := w.name("s"), w.name("k")
		pre := ""
		if hasKey {
			pre += bind(s.Key, k)
		}
		if hasVal {
			v := fmt.Sprintf("%s[%s]", sl, k)
			if !w.single {
				v = fmt.Sprintf("czzrt.LdE(&%s[%s], %d)", sl, k, w.newSite(s.X.Pos()))
			}
			pre += bind(s.Value, v)
		}
		open, end := declare(fmt.Sprintf("%s := %s\n", sl, w.rv(s.X)), "0", "czzrt.ElemZero("+sl+")")
		return fmt.Sprintf("%s%sfor %s := 0; %s < len(%s); %s++ ", open, label, k, k, sl, k) + w.loopBody(s.Body, pre) + end
	case isMap(t):
		it := w.name("it")
		pre := ""
		if hasKey {
			pre += bind(s.Key, it+".Key()")
		}
		if hasVal {
			pre += bind(s.Value, it+".Val()")
		}
		site := -1 // nobody else is there to touch it
		if !w.single {
			site = w.newSite(s.X.Pos())
		}
		open, end := declare(fmt.Sprintf("%s := czzrt.NewMapIter(%s, %d)\n", it, w.rv(s.X), site), it+".Key()", it+".Val()")
		return fmt.Sprintf("%s%sfor %s.Next() ", open, label, it) + w.loopBody(s.Body, pre) + end
	case isChan(t):
		ch, v, ok := w.name("ch"), w.name("v"), w.name("ok")
		if !hasKey {
			v = "_"
		}
		pre := fmt.Sprintf("%s, %s := czzrt.Recv2(%s)\nif !%s {\nbreak\n}\n", v, ok, ch, ok)
		if hasKey {
			pre += bind(s.Key, v)
		}
		open, end := declare(fmt.Sprintf("%s := %s\n", ch, w.rv(s.X)), "czzrt.ChanZero("+ch+")", "")
		return open + label + "for " + w.loopBody(s.Body, pre) + end
	}
	// arrays, strings, integers
	var b strings.Builder
	b.WriteString(label + "for ")
	if s.Key != nil {
		b.WriteString(w.lhs(s.Key))
		if s.Value != nil {
			b.WriteString(", " + w.lhs(s.Value))
		}
		b.WriteString(" " + s.Tok.String() + " ")
	}
	b.WriteString("range " + w.rv(s.X) + " ")
	b.WriteString(w.loopBody(s.Body, ""))
	return b.String()
}

func (w *rewriter) selectStmt(s *ast.SelectStmt, label string) string {
	var pre, body strings.Builder
	def := false
	var names []string
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
			body.WriteString("case -1:\n" + w.stmts(cc.Body))
			continue
		}
		n := w.name("c")
		head := ""
		recv := func(e ast.Expr) {
			fmt.Fprintf(&pre, "%s := czzrt.CaseRecv(%s)\n", n, w.rv(unparen(e).(*ast.UnaryExpr).X))
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			fmt.Fprintf(&pre, "%s := czzrt.CaseSend(%s)(%s)\n", n, w.rv(cm.Chan), w.rv(cm.Value))
		case *ast.ExprStmt:
			recv(cm.X)
		case *ast.AssignStmt:
			recv(cm.Rhs[0])
			vals := []string{n + ".Val", n + ".Ok"}
			for i, l := range cm.Lhs {
				switch {
				case isBlank(l):
				case cm.Tok == token.DEFINE:
					head += l.(*ast.Ident).Name + " := " + vals[i] + "\n"
				case w.shared(l):
					head += w.at(l) + ".Set(" + vals[i] + ")\n"
				default:
					head += w.lhs(l) + " = " + vals[i] + "\n"
				}
			}
		default:
			fail("%s: unsupported select case %T", w.fset.Position(cc.Pos()), cm)
		}
		fmt.Fprintf(&body, "case %d:\n%s%s", len(names), head, w.stmts(cc.Body))
		names = append(names, n)
	}
	args := fmt.Sprint(def)
	if len(names) > 0 {
		args += ", " + strings.Join(names, ", ")
	}
	return "{\n" + pre.String() + label + "switch czzrt.Select(" + args + ") {\n" + body.String() + "default:\npanic(0)\n}\n}"
}

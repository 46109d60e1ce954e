package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func (w *rewriter) typeOf(e ast.Expr) types.Type {
	return w.info.TypeOf(e)
}

func under(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return t.Underlying()
}

func isPtr(t types.Type) bool   { _, ok := under(t).(*types.Pointer); return ok }
func isSlice(t types.Type) bool { _, ok := under(t).(*types.Slice); return ok }
func isMap(t types.Type) bool   { _, ok := under(t).(*types.Map); return ok }
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isChan(t types.Type) bool  { _, ok := under(t).(*types.Chan); return ok }
func isArray(t types.Type) bool { _, ok := under(t).(*types.Array); return ok }
func isPtrToArray(t types.Type) bool {
	p, ok := under(t).(*types.Pointer)
	return ok && isArray(p.Elem())
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (w *rewriter) object(id *ast.Ident) types.Object {
	if o := w.info.Uses[id]; o != nil {
		return o
	}
	return w.info.Defs[id]
}

// pkgVar reports whether id names a package-level variable of an instrumented package.
func (w *rewriter) pkgVar(o types.Object) bool {
	v, ok := o.(*types.Var)
	return ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() && w.ours(v.Pkg())
}

func (w *rewriter) ours(p *types.Package) bool {
	return p != nil && (p.Path() == w.modPath || strings.HasPrefix(p.Path(), w.modPath+"/"))
}

// shared reports whether e is a variable reachable by others: through a
// pointer, a slice, or at package level.
func (w *rewriter) shared(e ast.Expr) bool {
	if w.single {
		return false // a process without goroutines: its memory is its own
	}
	switch e := unparen(e).(type) {
	case *ast.Ident:
		o := w.object(e)
		return w.pkgVar(o) || w.captured[o]
	case *ast.SelectorExpr:
		if s, ok := w.info.Selections[e]; ok {
			if s.Kind() != types.FieldVal {
				return false
			}
			return s.Indirect() || w.shared(e.X)
		}
		return w.pkgVar(w.object(e.Sel))
	case *ast.IndexExpr:
		t := w.typeOf(e.X)
		switch {
		case isSlice(t), isPtrToArray(t), isMap(t):
			return true
		case isArray(t):
			return w.shared(e.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

// elem reports whether e lives in slice or raw memory, the memory a fault can strike.
func (w *rewriter) elem(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.IndexExpr:
		return isSlice(w.typeOf(e.X)) || isPtrToArray(w.typeOf(e.X)) || isArray(w.typeOf(e.X)) && w.elem(e.X)
	case *ast.StarExpr:
		c, ok := unparen(e.X).(*ast.CallExpr)
		if !ok || len(c.Args) != 1 {
			return false
		}
		if tv := w.info.Types[c.Fun]; !tv.IsType() {
			return false
		}
		b, ok := under(w.typeOf(c.Args[0])).(*types.Basic)
		return ok && b.Kind() == types.UnsafePointer
	case *ast.SelectorExpr:
		if s, ok := w.info.Selections[e]; ok && s.Kind() == types.FieldVal && !s.Indirect() {
			return w.elem(e.X)
		}
	}
	return false
}

// addr renders a variable so that its address can be taken; pointers and
// slices on the way are loaded through hooks.
func (w *rewriter) addr(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return "(" + w.addr(e.X) + ")"
	case *ast.Ident:
		return w.ident(e)
	case *ast.SelectorExpr:
		if s, ok := w.info.Selections[e]; ok {
			if isPtr(w.typeOf(e.X)) {
				return w.rv(e.X) + "." + e.Sel.Name
			}
			_ = s
			if w.addressable(e.X) {
				return w.addr(e.X) + "." + e.Sel.Name
			}
			return w.rv(e.X) + "." + e.Sel.Name
		}
		return w.raw(e)
	case *ast.IndexExpr:
		t := w.typeOf(e.X)
		if isArray(t) && w.addressable(e.X) {
			return w.addr(e.X) + "[" + w.rv(e.Index) + "]"
		}
		return w.rv(e.X) + "[" + w.rv(e.Index) + "]"
	case *ast.StarExpr:
		return "(*" + w.rv(e.X) + ")"
	}
	return w.rv(e)
}

func (w *rewriter) addressable(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		_, ok := w.object(e).(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if s, ok := w.info.Selections[e]; ok {
			return s.Kind() == types.FieldVal && (s.Indirect() || w.addressable(e.X))
		}
		_, ok := w.object(e.Sel).(*types.Var)
		return ok
	case *ast.IndexExpr:
		t := w.typeOf(e.X)
		return isSlice(t) || isPtrToArray(t) || isArray(t) && w.addressable(e.X)
	case *ast.StarExpr:
		return true
	}
	return false
}

func (w *rewriter) ident(e *ast.Ident) string {
	if w.proc && w.isMain {
		if o := w.object(e); o != nil && w.pkgVar(o) {
			return fmt.Sprintf("czzg%d().%s", w.fileOf[o], e.Name)
		}
	}
	return e.Name
}

func (w *rewriter) rvs(es []ast.Expr) string {
	var s []string
	for _, e := range es {
		s = append(s, w.rv(e))
	}
	return strings.Join(s, ", ")
}

func (w *rewriter) load(e ast.Expr) string {
	f := "Ld"
	if w.elem(e) {
		f = "LdE"
	}
	return fmt.Sprintf("czzrt.%s(&%s, %d)", f, w.addr(e), w.newSite(e.Pos()))
}

// rv renders e as a value.
func (w *rewriter) rv(e ast.Expr) string {
	if e == nil {
		return ""
	}
	tv := w.info.Types[e]
	if tv.Value != nil || tv.IsType() || tv.IsNil() {
		return w.raw(e)
	}
	if ix, ok := unparen(e).(*ast.IndexExpr); ok && isMap(w.typeOf(ix.X)) && !w.single {
		if _, two := tv.Type.(*types.Tuple); two {
			return w.at(e) + ".Get2()"
		}
		return w.at(e) + ".Get()"
	}
	if w.shared(e) {
		return w.load(e)
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return "(" + w.rv(e.X) + ")"
	case *ast.Ident:
		return w.ident(e)
	case *ast.BasicLit:
		return w.raw(e)
	case *ast.SelectorExpr:
		s, ok := w.info.Selections[e]
		if !ok {
			if o := w.object(e.Sel); w.proc && o.Name() == "Args" && o.Pkg() != nil && o.Pkg().Path() == "os" {
				w.keep[w.raw(e.X)+".Exit"] = true
				return "czzos.Current().Args"
			}
			return w.raw(e) // package-qualified
		}
		switch s.Kind() {
		case types.FieldVal:
			return w.addr(e)
		case types.MethodVal:
			return w.method(e, s)
		default: // method expression
			return w.raw(e)
		}
	case *ast.IndexExpr:
		t := w.typeOf(e.X)
		if _, ok := under(t).(*types.Signature); ok {
			return w.raw(e)
		}
		if w.addressable(e) {
			return w.addr(e)
		}
		return w.rv(e.X) + "[" + w.rv(e.Index) + "]"
	case *ast.IndexListExpr:
		return w.raw(e)
	case *ast.SliceExpr:
		x := ""
		if isArray(w.typeOf(e.X)) {
			x = w.addr(e.X)
		} else {
			x = w.rv(e.X)
		}
		s := x + "[" + w.rv(e.Low) + ":" + w.rv(e.High)
		if e.Slice3 {
			s += ":" + w.rv(e.Max)
		}
		return s + "]"
	case *ast.StarExpr:
		return "(*" + w.rv(e.X) + ")"
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			if _, ok := unparen(e.X).(*ast.CompositeLit); ok {
				return "&" + w.rv(e.X)
			}
			return "&" + w.addr(e.X)
		}
		if e.Op == token.ARROW {
			if _, ok := tv.Type.(*types.Tuple); ok {
				return "czzrt.Recv2(" + w.rv(e.X) + ")"
			}
			return "czzrt.Recv(" + w.rv(e.X) + ")"
		}
		return e.Op.String() + "(" + w.rv(e.X) + ")"
	case *ast.BinaryExpr:
		return w.rv(e.X) + " " + e.Op.String() + " " + w.rvBin(e.Y)
	case *ast.TypeAssertExpr:
		if e.Type == nil {
			return w.rv(e.X) + ".(type)"
		}
		return w.rv(e.X) + ".(" + w.raw(e.Type) + ")"
	case *ast.FuncLit:
		return w.funcLit(e)
	case *ast.CompositeLit:
		return w.composite(e)
	case *ast.CallExpr:
		return w.call(e)
	case *ast.KeyValueExpr:
		return w.rv(e.Key) + ": " + w.rv(e.Value)
	}
	fail("%s: unsupported expression %T", w.fset.Position(e.Pos()), e)
	return ""
}

// rvBin keeps nested binary expressions apart; the parser already built the
// tree, so the text only has to parse the same way.
func (w *rewriter) rvBin(e ast.Expr) string { return w.rv(e) }

func (w *rewriter) funcLit(e *ast.FuncLit) string {
	old := w.fn
	w.lambda++
	w.fn = fmt.Sprintf("%s.func%d", old, w.lambda)
	s := w.raw(e.Type) + " {\nczzrt.Tick()\n" + w.stmts(e.Body.List) + "}"
	w.fn = old
	return s
}

func (w *rewriter) composite(e *ast.CompositeLit) string {
	var b strings.Builder
	if e.Type != nil {
		b.WriteString(w.raw(e.Type))
	}
	b.WriteString("{")
	t := under(w.typeOf(e))
	if p, ok := t.(*types.Pointer); ok {
		t = under(p.Elem())
	}
	_, isStruct := t.(*types.Struct)
	for i, el := range e.Elts {
		if i > 0 {
			b.WriteString(", ")
		}
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			if isStruct {
				b.WriteString(kv.Key.(*ast.Ident).Name)
			} else {
				b.WriteString(w.rv(kv.Key))
			}
			b.WriteString(": " + w.rv(kv.Value))
		} else {
			b.WriteString(w.rv(el))
		}
	}
	b.WriteString("}")
	return b.String()
}

// method renders x.M where M is a method.
func (w *rewriter) method(e *ast.SelectorExpr, s *types.Selection) string {
	f, _ := s.Obj().(*types.Func)
	ptrRecv := false
	if f != nil {
		if r := f.Type().(*types.Signature).Recv(); r != nil {
			ptrRecv = isPtr(r.Type()) || w.copied[f.Origin()]
		}
	}
	if ptrRecv && !isPtr(w.typeOf(e.X)) && w.addressable(e.X) {
		return w.addr(e.X) + "." + e.Sel.Name
	}
	return w.rv(e.X) + "." + e.Sel.Name
}

func (w *rewriter) callee(e *ast.CallExpr) types.Object {
	switch f := unparen(e.Fun).(type) {
	case *ast.Ident:
		return w.object(f)
	case *ast.SelectorExpr:
		return w.object(f.Sel)
	case *ast.IndexExpr:
		if id, ok := unparen(f.X).(*ast.Ident); ok {
			return w.object(id)
		}
	}
	return nil
}

func (w *rewriter) call(e *ast.CallExpr) string {
	ell := ""
	if e.Ellipsis.IsValid() {
		ell = "..."
	}
	if tv := w.info.Types[e.Fun]; tv.IsType() { // conversion
		arg := e.Args[0]
		s := w.rv(arg)
		if isString(w.typeOf(e)) && isSlice(w.typeOf(arg)) && !w.single {
			s = fmt.Sprintf("czzrt.UseAll(%d, false, %s)", w.newSite(e.Pos()), s)
		}
		t := w.raw(e.Fun)
		if _, ok := unparen(e.Fun).(*ast.Ident); !ok {
			t = "(" + t + ")"
		}
		return t + "(" + s + ")"
	}
	o := w.callee(e)
	if b, ok := o.(*types.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			if isMap(w.typeOf(e.Args[0])) && !w.single {
				return fmt.Sprintf("%s(czzrt.MapR(%s, %d))", b.Name(), w.rv(e.Args[0]), w.newSite(e.Pos()))
			}
			if b.Name() == "len" && isChan(w.typeOf(e.Args[0])) {
				return "czzrt.ChanLen(" + w.rv(e.Args[0]) + ")"
			}
			return b.Name() + "(" + w.rv(e.Args[0]) + ")"
		case "close":
			return "czzrt.Close(" + w.rv(e.Args[0]) + ")"
		case "append":
			if w.single {
				break
			}
			f := "Append"
			if e.Ellipsis.IsValid() && isString(w.typeOf(e.Args[1])) {
				f, ell = "AppendStr", ""
			}
			return fmt.Sprintf("czzrt.%s(%d, %s%s)", f, w.newSite(e.Pos()), w.rvs(e.Args), ell)
		case "copy":
			if w.single {
				break
			}
			f := "Copy"
			if isString(w.typeOf(e.Args[1])) {
				f = "CopyStr"
			}
			return fmt.Sprintf("czzrt.%s(%d, %s)", f, w.newSite(e.Pos()), w.rvs(e.Args))
		case "clear":
			if w.single {
				break
			}
			if isMap(w.typeOf(e.Args[0])) {
				return fmt.Sprintf("clear(czzrt.MapW(%s, %d))", w.rv(e.Args[0]), w.newSite(e.Pos()))
			}
			return fmt.Sprintf("czzrt.Clear(%d, %s)", w.newSite(e.Pos()), w.rv(e.Args[0]))
		case "delete":
			if w.single {
				break
			}
			return fmt.Sprintf("czzrt.MapAt(%s, %d).At(%s).Delete()", w.rv(e.Args[0]), w.newSite(e.Pos()), w.rv(e.Args[1]))
		case "new", "make":
			s := w.raw(e.Args[0])
			for _, a := range e.Args[1:] {
				s += ", " + w.rv(a)
			}
			return b.Name() + "(" + s + ")"
		case "recover":
			return "czzrt.Recover(recover())"
		case "Sizeof", "Alignof", "Offsetof":
			return w.raw(e)
		}
		return w.fun(e.Fun) + "(" + w.rvs(e.Args) + ell + ")"
	}
	// functions of packages that are not instrumented may read or write through slices
	ext := false
	full := ""
	if f, ok := o.(*types.Func); ok {
		ext = f.Pkg() != nil && !w.ours(f.Pkg())
		full = f.FullName()
	}
	switch full {
	case "runtime.Gosched":
		w.keep[w.raw(e.Fun)] = true
		return "czzrt.Yield(" + w.rvs(e.Args) + ")"
	case "runtime.NumCPU", "runtime.GOMAXPROCS":
		w.keep[w.raw(e.Fun)] = true
		return "czzrt.Procs(" + w.rvs(e.Args) + ")"
	case "runtime.NumGoroutine":
		w.keep[w.raw(e.Fun)] = true
		return "czzrt.Goroutines()"
	}
	var args []string
	for i, a := range e.Args {
		s := w.rv(a)
		if ext && !w.single && isSlice(w.typeOf(a)) && !w.info.Types[a].IsNil() {
			n, wr := w.extent(full, i)
			s = fmt.Sprintf("czzrt.Use(%d, %d, %v, %s)", w.newSite(a.Pos()), n, wr, s)
		}
		args = append(args, s)
	}
	return w.fun(e.Fun) + "(" + strings.Join(args, ", ") + ell + ")"
}

func (w *rewriter) fun(f ast.Expr) string {
	switch f := unparen(f).(type) {
	case *ast.FuncLit:
		return "(" + w.rv(f) + ")"
	case *ast.Ident, *ast.SelectorExpr:
		return w.rv(f)
	}
	return "(" + w.rv(f) + ")"
}

// extent says how much of a slice argument a well-known function touches.
func (w *rewriter) extent(full string, arg int) (n int, write bool) {
	if arg == 0 && strings.Contains(full, "encoding/binary.") {
		i := strings.LastIndexByte(full, '.')
		m := full[i+1:]
		wr := strings.HasPrefix(m, "PutUint")
		switch strings.TrimPrefix(strings.TrimPrefix(m, "Put"), "Uint") {
		case "16":
			return 2, wr
		case "32":
			return 4, wr
		case "64":
			return 8, wr
		}
	}
	if writes[full] == arg+1 {
		return -2, true
	}
	return -1, false
}

// writes lists functions that write all of a slice argument: its number, from one.
var writes = map[string]int{
	"crypto/subtle.XORBytes":         1,
	"crypto/subtle.ConstantTimeCopy": 2,
	"io.ReadFull":                    2,
	"slices.Reverse":                 1,
	"slices.Sort":                    1,
	"sort.Slice":                     1,
}

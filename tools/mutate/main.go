// mutate lists or applies small changes to Go files, to measure what the
// checks notice.
//
//	mutate -list FILE...          one line per mutant: index, file:line, what
//	mutate -apply N FILE...       writes mutant N in place
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
}

type mutant struct {
	file  string
	line  int
	fn    string
	what  string
	edits []edit
}

var muts []mutant

func main() {
	list := flag.Bool("list", false, "list")
	apply := flag.Int("apply", -1, "apply")
	flag.Parse()
	for _, f := range flag.Args() {
		scan(f)
	}
	if *list {
		for i, m := range muts {
			fmt.Printf("%d\t%s:%d\t%s\t%s\n", i, m.file, m.line, m.fn, m.what)
		}
		return
	}
	m := muts[*apply]
	src, err := os.ReadFile(m.file)
	if err != nil {
		panic(err)
	}
	out := string(src)
	for i := len(m.edits) - 1; i >= 0; i-- {
		e := m.edits[i]
		out = out[:e.from] + e.text + out[e.to:]
	}
	if err := os.WriteFile(m.file, []byte(out), 0o644); err != nil {
		panic(err)
	}
	fmt.Printf("%s:%d %s: %s\n", m.file, m.line, m.fn, m.what)
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<"}, token.GEQ: {">", "=="},
	token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"&", "|"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.AND_NOT: {"&", "|"},
}

func scan(file string) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.SkipObjectResolution)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	short := func(s string) string {
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 70 {
			s = s[:70] + "…"
		}
		return s
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		fn := fd.Name.Name
		if fd.Recv != nil {
			fn = text(fd.Recv.List[0].Type) + "." + fn
		}
		add := func(p token.Pos, what string, e ...edit) {
			muts = append(muts, mutant{file, fset.Position(p).Line, fn, what, e})
		}
		del := func(s ast.Stmt) {
			add(s.Pos(), "delete "+short(text(s)), edit{off(s.Pos()), off(s.End()), "{}"})
		}
		stmts := func(l []ast.Stmt) {
			for i, s := range l {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
					del(s)
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						del(s)
					}
				case *ast.IfStmt:
					if s.Else == nil && s.Init == nil {
						del(s)
					}
				case *ast.ForStmt, *ast.RangeStmt:
					del(s)
				case *ast.BranchStmt:
					del(s)
				}
				if ds, ok := s.(*ast.DeferStmt); ok {
					add(s.Pos(), "undefer "+short(text(s)), edit{off(s.Pos()), off(ds.Call.Pos()), ""})
				}
				if i+1 < len(l) {
					n := l[i+1]
					if _, ok := n.(*ast.ReturnStmt); ok {
						continue
					}
					add(s.Pos(), "swap "+short(text(s))+" / "+short(text(n)), edit{off(s.Pos()), off(s.End()), text(n)}, edit{off(n.Pos()), off(n.End()), text(s)})
				}
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.IfStmt:
				add(n.Cond.Pos(), "if true: "+short(text(n.Cond)), edit{off(n.Cond.Pos()), off(n.Cond.End()), "true || (" + text(n.Cond) + ")"})
				add(n.Cond.Pos(), "if false: "+short(text(n.Cond)), edit{off(n.Cond.Pos()), off(n.Cond.End()), "false && (" + text(n.Cond) + ")"})
			case *ast.BinaryExpr:
				for _, t := range swaps[n.Op] {
					add(n.OpPos, short(text(n))+"  →  "+t, edit{off(n.OpPos), off(n.OpPos) + len(n.Op.String()), t})
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						add(n.Pos(), n.Value+" → +1", edit{off(n.Pos()), off(n.End()), fmt.Sprint(v + 1)})
						if v > 0 {
							add(n.Pos(), n.Value+" → -1", edit{off(n.Pos()), off(n.End()), fmt.Sprint(v - 1)})
						}
					}
				}
			case *ast.IncDecStmt:
				t := "--"
				if n.Tok == token.DEC {
					t = "++"
				}
				add(n.TokPos, text(n)+" → "+t, edit{off(n.TokPos), off(n.TokPos) + 2, t})
			case *ast.AssignStmt:
				if n.Tok == token.ADD_ASSIGN || n.Tok == token.SUB_ASSIGN || n.Tok == token.OR_ASSIGN || n.Tok == token.AND_ASSIGN || n.Tok == token.XOR_ASSIGN || n.Tok == token.AND_NOT_ASSIGN {
					r := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.OR_ASSIGN: "^=", token.AND_ASSIGN: "|=", token.XOR_ASSIGN: "|=", token.AND_NOT_ASSIGN: "^="}[n.Tok]
					add(n.TokPos, short(text(n))+" → "+r, edit{off(n.TokPos), off(n.TokPos) + len(n.Tok.String()), r})
					add(n.TokPos, short(text(n))+" → =", edit{off(n.TokPos), off(n.TokPos) + len(n.Tok.String()), "="})
				}
			case *ast.CallExpr:
				if s, ok := n.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Lock" || s.Sel.Name == "Unlock") {
					return true
				}
				for i := 0; i+1 < len(n.Args); i++ {
					a, b := n.Args[i], n.Args[i+1]
					if text(a) != text(b) {
						add(a.Pos(), "args "+short(text(n)), edit{off(a.Pos()), off(a.End()), text(b)}, edit{off(b.Pos()), off(b.End()), text(a)})
					}
				}
			case *ast.SliceExpr:
				if n.High != nil && n.Max == nil {
					add(n.Pos(), "no high: "+short(text(n)), edit{off(n.High.Pos()), off(n.High.End()), ""})
				}
				if n.Low != nil {
					add(n.Pos(), "no low: "+short(text(n)), edit{off(n.Low.Pos()), off(n.Low.End()), ""})
				}
			}
			return true
		})
	}
}

// Command instrument rewrites the packages of one Go module of the code under
// test so that they run under the simulator: every access to memory that can be
// shared becomes a hook, every synchronisation and I/O package is replaced by
// its simulated twin. It works on the typed syntax tree of whatever is there;
// it knows nothing about the particular functions.
//
//	instrument -dir MODULEDIR -out OUTDIR -as crunchsim/gen/v1 -base N [-proc]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	Dir, ImportPath, Name, Export string
	GoFiles                       []string
	CgoFiles                      []string
	SFiles                        []string
	Standard                      bool
	Module                        *struct {
		Path      string
		Main      bool
		GoVersion string
	}
}

var (
	dir  = flag.String("dir", "", "module directory")
	out  = flag.String("out", "", "output directory")
	as   = flag.String("as", "", "import path of the root package of the module after rewriting")
	base = flag.Int("base", 0, "first site number")
	vals = flag.Bool("values", false, "leave value receivers as they are")
	proc = flag.Bool("proc", false, "process mode: package main becomes an importable program with per-process globals")
)

var shims = map[string]string{
	"sync":         "crunchsim/simsync",
	"sync/atomic":  "crunchsim/simatomic",
	"time":         "crunchsim/simos/simtime",
	"math/rand":    "crunchsim/simrand",
	"math/rand/v2": "crunchsim/simrand/v2",
	"crypto/rand":  "crunchsim/simrand/crypto",
}

var procShims = map[string]string{
	"os":            "crunchsim/simos",
	"io/ioutil":     "crunchsim/simos/simioutil",
	"flag":          "crunchsim/simos/simflag",
	"fmt":           "crunchsim/simos/simfmt",
	"log":           "crunchsim/simos/simlog",
	"path/filepath": "crunchsim/simos/simfilepath",
	"os/signal":     "crunchsim/simos/simsignal",
}

func fail(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,CgoFiles,SFiles,Standard,Module", "./...")
	cmd.Dir = *dir
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		fail("go list: %v", err)
	}
	exports := map[string]string{}
	var mains []*listPkg
	modPath := ""
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fail("%v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			mains = append(mains, p)
			modPath = p.Module.Path
		}
	}
	if len(mains) == 0 {
		fail("no packages in %s", *dir)
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		f := exports[p]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(f)
	})
	site := *base
	for _, p := range mains {
		if len(p.CgoFiles) > 0 || len(p.SFiles) > 0 {
			fail("package %s has cgo or assembly files", p.ImportPath)
		}
		if p.Name == "main" && !*proc {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		w := &rewriter{fset: fset, modPath: modPath, as: *as, firstSite: site, site: site, rel: path.Join(path.Base(*as), rel), proc: *proc, isMain: p.Name == "main"}
		w.run(imp, p, filepath.Join(*out, rel))
		site = w.site
	}
}

type rewriter struct {
	fset      *token.FileSet
	info      *types.Info
	pkg       *types.Package
	modPath   string
	as        string
	rel       string
	firstSite int
	site      int
	siteNames []string
	fn        string // current function
	tmp       int
	proc      bool
	single    bool // proc, and no goroutines in it
	lang      string
	loopVars  bool // language before go 1.22: loop variables belong to the loop
	isMain    bool
	keep      map[string]bool // selectors whose import must stay used
	file      int
	fileOf    map[types.Object]int
	copied    map[types.Object]bool // methods with value receivers that are rewritten
	inits     []string              // init functions, in order
	zeroes    []string              // package-level variables
	lambda    int
	captured  map[types.Object]bool // local variables that function literals use from outside
}

func (w *rewriter) run(imp types.Importer, p *listPkg, outDir string) {
	var files []*ast.File
	sort.Strings(p.GoFiles)
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(w.fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			fail("%v", err)
		}
		files = append(files, a)
	}
	w.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
	var err error
	w.pkg, err = conf.Check(p.ImportPath, w.fset, files, w.info)
	if err != nil {
		fail("%v", err)
	}
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		fail("%v", err)
	}
	w.loopVars = oldLoops(p.Module.GoVersion)
	w.lang = "go1.21"
	if !w.loopVars {
		w.lang = "go" + strings.Join(strings.Split(p.Module.GoVersion, ".")[:2], ".")
	}
	if w.proc {
		w.single = true
		for _, f := range files {
			ast.Inspect(f, func(n ast.Node) bool {
				if _, ok := n.(*ast.GoStmt); ok {
					w.single = false
				}
				return true
			})
		}
	}
	w.captured = map[types.Object]bool{}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			if l, ok := n.(*ast.FuncLit); ok {
				w.capture(l)
			}
			return true
		})
	}
	w.receivers(files)
	w.fileOf = map[types.Object]int{}
	for i, f := range files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						w.fileOf[w.info.Defs[n]] = i
					}
				}
			}
		}
	}
	for i, f := range files {
		w.file = i
		src := w.genFile(f, p.GoFiles[i])
		if err := os.WriteFile(filepath.Join(outDir, p.GoFiles[i]), []byte(src), 0o644); err != nil {
			fail("%v", err)
		}
	}
	var b strings.Builder
	pn := files[0].Name.Name
	if w.isMain {
		pn = "simmain"
	}
	fmt.Fprintf(&b, "//go:build %s\n\npackage %s\n\nimport czzrt \"crunchsim/rt\"\n\nvar _ = czzrt.RegisterSites(%d, []string{\n", w.lang, pn, w.firstSite)
	for _, n := range w.siteNames {
		fmt.Fprintf(&b, "\t%q,\n", n)
	}
	b.WriteString("})\n")
	if w.isMain {
		b.WriteString("\n// Main runs the program in the current simulated process.\nfunc Main() {\n")
		for _, it := range w.info.InitOrder {
			fmt.Fprintf(&b, "\t%s()\n", w.initName(it))
		}
		for _, n := range w.inits {
			fmt.Fprintf(&b, "\t%s()\n", n)
		}
		b.WriteString("\tczzmain()\n}\n")
	}
	if !w.isMain && len(w.zeroes)+len(w.info.InitOrder)+len(w.inits) > 0 {
		b.WriteString("\nvar _ = czzrt.RegisterReset(func() {\n")
		for _, n := range w.zeroes {
			fmt.Fprintf(&b, "\tczzrt.Zero(&%s)\n", n)
		}
		for _, it := range w.info.InitOrder {
			fmt.Fprintf(&b, "\t%s()\n", w.initName(it))
		}
		for _, n := range w.inits {
			fmt.Fprintf(&b, "\t%s()\n", n)
		}
		b.WriteString("})\n")
	}
	if err := os.WriteFile(filepath.Join(outDir, "zz_sites.go"), []byte(b.String()), 0o644); err != nil {
		fail("%v", err)
	}
}

// capture notes the local variables declared outside of l that l uses: what l
// runs in may be another goroutine.
func (w *rewriter) capture(l *ast.FuncLit) {
	ast.Inspect(l.Body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := w.info.Uses[id].(*types.Var)
		if ok && !v.IsField() && v.Pkg() == w.pkg && v.Parent() != w.pkg.Scope() && (v.Pos() < l.Pos() || v.Pos() >= l.End()) {
			w.captured[v] = true
		}
		return true
	})
}

func (w *rewriter) initName(it *types.Initializer) string {
	return fmt.Sprintf("czzinit_%d", w.fset.Position(it.Rhs.Pos()).Offset*16+w.fileOf[it.Lhs[0]])
}

// oldLoops reports whether v, a language version, is before 1.22.
func oldLoops(v string) bool {
	p := strings.Split(v, ".")
	if len(p) < 2 {
		return true
	}
	minor, err := strconv.Atoi(p[1])
	return err != nil || p[0] == "1" && minor < 22
}

/* files and declarations */

func (w *rewriter) genFile(f *ast.File, name string) string {
	w.keep = map[string]bool{}
	var body strings.Builder
	if w.proc && w.isMain {
		w.globals(f, &body)
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			switch d.Tok {
			case token.IMPORT:
			case token.VAR:
				if w.proc && w.isMain {
					continue
				}
				w.fn = "package var"
				for _, s := range d.Specs {
					body.WriteString("var " + w.valueSpec(s.(*ast.ValueSpec)) + "\n")
				}
				w.resetVars(d, &body)
			default:
				body.WriteString(w.raw(d) + "\n\n")
			}
		case *ast.FuncDecl:
			w.funcDecl(d, &body)
		}
	}
	var b strings.Builder
	pn := f.Name.Name
	if w.isMain {
		pn = "simmain"
	}
	fmt.Fprintf(&b, "//go:build %s\n\npackage %s\n\nimport czzrt \"crunchsim/rt\"\n", w.lang, pn)
	if w.proc && w.isMain {
		b.WriteString("import czzos \"crunchsim/simos\"\n")
	}
	for _, is := range f.Imports {
		p, _ := strconv.Unquote(is.Path.Value)
		local := ""
		if is.Name != nil {
			local = is.Name.Name
		} else if pn, ok := w.info.Implicits[is].(*types.PkgName); ok {
			local = pn.Name()
		}
		np := p
		if s, ok := shims[p]; ok {
			np = s
		}
		if w.proc {
			if s, ok := procShims[p]; ok {
				np = s
			}
		}
		if p == w.modPath {
			np = w.as
		} else if strings.HasPrefix(p, w.modPath+"/") {
			np = w.as + strings.TrimPrefix(p, w.modPath)
		}
		fmt.Fprintf(&b, "import %s %q\n", local, np)
	}
	b.WriteString("\nvar _ = czzrt.Tick\n")
	var ks []string
	for k := range w.keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "var _ = %s\n", k)
	}
	b.WriteString("\n")
	b.WriteString(body.String())
	return b.String()
}

// globals emits the per-process globals of one file of a program.
func (w *rewriter) globals(f *ast.File, b *strings.Builder) {
	fmt.Fprintf(b, "type czzglobals%d struct {\n", w.file)
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			v := s.(*ast.ValueSpec)
			for _, n := range v.Names {
				if n.Name == "_" {
					continue
				}
				ts := ""
				if v.Type != nil {
					ts = w.raw(v.Type)
				} else {
					ts = types.TypeString(w.info.Defs[n].Type(), func(p *types.Package) string {
						if p == w.pkg {
							return ""
						}
						for _, is := range f.Imports {
							ip, _ := strconv.Unquote(is.Path.Value)
							if ip == p.Path() {
								if is.Name != nil {
									return is.Name.Name
								}
								return p.Name()
							}
						}
						return p.Name()
					})
				}
				fmt.Fprintf(b, "\t%s %s\n", n.Name, ts)
			}
		}
	}
	fmt.Fprintf(b, "}\n\nfunc czzg%d() *czzglobals%d { return czzos.Globals(%q, func() any { return new(czzglobals%d) }).(*czzglobals%d) }\n\n", w.file, w.file, fmt.Sprint(w.rel, w.file), w.file, w.file)
	w.fn = "package var"
	for _, it := range w.info.InitOrder {
		if w.fileOf[it.Lhs[0]] != w.file {
			continue
		}
		var l []string
		for _, v := range it.Lhs {
			if v.Name() == "_" {
				l = append(l, "_")
			} else {
				l = append(l, fmt.Sprintf("czzg%d().%s", w.file, v.Name()))
			}
		}
		fmt.Fprintf(b, "func %s() { %s = %s }\n\n", w.initName(it), strings.Join(l, ", "), w.rv(it.Rhs))
	}
}

// resetVars emits the functions that give the variables of one declaration
// their initial values again.
func (w *rewriter) resetVars(d *ast.GenDecl, b *strings.Builder) {
	for _, s := range d.Specs {
		v := s.(*ast.ValueSpec)
		for _, n := range v.Names {
			if n.Name != "_" {
				w.zeroes = append(w.zeroes, n.Name)
			}
		}
		for _, x := range v.Values {
			for _, it := range w.info.InitOrder {
				if it.Rhs != x {
					continue
				}
				var l []string
				blank := true
				for _, o := range it.Lhs {
					l = append(l, o.Name())
					blank = blank && o.Name() == "_"
				}
				if blank {
					// assertions and registrations
					t := ""
					if v.Type != nil {
						t = " " + w.raw(v.Type)
					}
					fmt.Fprintf(b, "func %s() { var %s%s = %s }\n\n", w.initName(it), strings.Join(l, ", "), t, w.rv(x))
					continue
				}
				fmt.Fprintf(b, "func %s() { %s = %s }\n\n", w.initName(it), strings.Join(l, ", "), w.rv(x))
			}
		}
	}
}

// receivers finds the methods that get a copy of a struct whose other methods
// get a pointer to it. The copy is made by whoever calls them, which may be
// code that is not instrumented: they are given the pointer instead, and make
// the copy themselves.
func (w *rewriter) receivers(files []*ast.File) {
	w.copied = map[types.Object]bool{}
	if w.proc || *vals {
		return
	}
	recv := func(d ast.Decl) (f *types.Func, t types.Type) {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv != nil && len(fd.Recv.List) == 1 {
			f, _ = w.info.Defs[fd.Name].(*types.Func)
			if f != nil {
				t = f.Type().(*types.Signature).Recv().Type()
			}
		}
		return
	}
	origin := func(t types.Type) types.Type {
		if n, ok := t.(*types.Named); ok {
			return n.Origin()
		}
		return t
	}
	byPtr := map[types.Type]bool{}
	for _, f := range files {
		for _, d := range f.Decls {
			if _, t := recv(d); t != nil {
				if p, ok := t.(*types.Pointer); ok {
					byPtr[origin(p.Elem())] = true
				}
			}
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			m, t := recv(d)
			if t == nil || isPtr(t) || !byPtr[origin(t)] {
				continue
			}
			if _, ok := under(t).(*types.Struct); ok {
				w.copied[m.Origin()] = true
			}
		}
	}
	// not where the method is a value, or called on what has no address
	for _, f := range files {
		called := map[ast.Expr]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				called[unparen(c.Fun)] = true
			}
			return true
		})
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.DeferStmt:
				delete(called, unparen(n.Call.Fun)) // the copy is made when it is deferred
			case *ast.GoStmt:
				delete(called, unparen(n.Call.Fun))
			}
			return true
		})
		for e, s := range w.info.Selections {
			m, ok := s.Obj().(*types.Func)
			if !ok || !w.copied[m.Origin()] || e.Pos() < f.Pos() || e.Pos() > f.End() {
				continue
			}
			if !called[e] || s.Kind() != types.MethodVal || !isPtr(w.typeOf(e.X)) && !w.addressable(e.X) {
				delete(w.copied, m.Origin())
			}
		}
	}
}

func (w *rewriter) funcDecl(d *ast.FuncDecl, b *strings.Builder) {
	w.fn = d.Name.Name
	w.lambda = 0
	if d.Recv != nil && len(d.Recv.List) == 1 {
		w.fn = "(" + types.ExprString(d.Recv.List[0].Type) + ")." + d.Name.Name
	}
	head := *d
	head.Doc, head.Body = nil, nil
	pre := ""
	if m, ok := w.info.Defs[d.Name].(*types.Func); ok && w.copied[m] && d.Body != nil {
		f := *d.Recv.List[0]
		if len(f.Names) == 1 && f.Names[0].Name != "_" {
			n := f.Names[0].Name
			pre = fmt.Sprintf("%s := czzrt.Ld(czzrecv, %d)\n_ = %s\n", n, w.newSite(d.Pos()), n)
		} else {
			pre = fmt.Sprintf("_ = czzrt.Ld(czzrecv, %d)\n", w.newSite(d.Pos()))
		}
		f.Names = []*ast.Ident{ast.NewIdent("czzrecv")}
		f.Type = &ast.StarExpr{X: f.Type}
		head.Recv = &ast.FieldList{List: []*ast.Field{&f}}
	}
	if d.Recv == nil && (d.Name.Name == "init" || w.isMain && d.Name.Name == "main") {
		id := *d.Name
		if d.Name.Name == "main" {
			id.Name = "czzmain"
		} else {
			id.Name = fmt.Sprintf("czzinit_f%d_%d", w.file, len(w.inits))
			w.inits = append(w.inits, id.Name)
		}
		head.Name = &id
		if !w.isMain {
			fmt.Fprintf(b, "func init() { %s() }\n\n", id.Name)
		}
	}
	b.WriteString(w.raw(&head))
	if d.Body != nil {
		b.WriteString(" {\nczzrt.Tick()\n" + pre + w.stmts(d.Body.List) + "}\n\n")
	} else {
		b.WriteString("\n\n")
	}
}

func (w *rewriter) valueSpec(s *ast.ValueSpec) string {
	var b strings.Builder
	for i, n := range s.Names {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(n.Name)
	}
	if s.Type != nil {
		b.WriteString(" " + w.raw(s.Type))
	}
	if len(s.Values) > 0 {
		b.WriteString(" = " + w.rvs(s.Values))
	}
	return b.String()
}

func (w *rewriter) raw(n ast.Node) string {
	var b bytes.Buffer
	if err := printer.Fprint(&b, w.fset, n); err != nil {
		fail("print: %v", err)
	}
	return b.String()
}

func (w *rewriter) newSite(pos token.Pos) int {
	p := w.fset.Position(pos)
	w.siteNames = append(w.siteNames, fmt.Sprintf("%s/%s:%d %s", w.rel, filepath.Base(p.Filename), p.Line, w.fn))
	w.site++
	return w.site - 1
}

func (w *rewriter) name(p string) string {
	w.tmp++
	return fmt.Sprintf("czz%s%d", p, w.tmp)
}

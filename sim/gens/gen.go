package gens

import (
	"fmt"
	"math/rand"
	"path"
	"path/filepath"
	"strings"

	"crunchsim/rng"
	"crunchsim/simos"
)

// Real are the templates of the working tree, by name.
var Real = map[string][]byte{}

func pick[T any](r *rand.Rand, l []T) T { return l[r.Intn(len(l))] }

var (
	templateNames = []string{"_buffer.go", "_minibuf.go", "_a.go", "_b.go", "_x.y.go", "_my.go.go", "_golang.go", "_.go", "_a.generated.go", "_a_b.go", "_B.go", "_h\u00e4t.go", "_one two.go", "_zz.go", "_test.go", "_a_test.go", "_go.go", "_-x.go", "_x.gopher.go", "_algo.go", "_a.go.b.go", "_go_test.generated.go", "_.a.go"}
	// templates whose outputs are templates of the next run
	doubled  = []string{"__x.go", "__buffer.go", "___a.go"}
	ordinary = []string{"lib.go", "errors.go", "a_b.go", "_notes.txt", "_readme.go.txt", "_cargo", "_x.Go", "x_.go", "_go", "go", "old.generated.go", "_.gox", ".hidden.go", "a.generated.go.bak", "_buffer.go~", "#_buffer.go#", ".go", "Makefile", "go.mod", "buffer.go", "a.go", ".generated.go.tmp", "generated.go", "_buffer.generated", "tmp", "x.generated.go.tmp", "_a.go.tmp", "_a.go.lock", "_makefile", "__"}
	dirNames = []string{"_dir.go", "sub", "testdata", "_sub", "x.generated.go", "_deep.go", "vendor"}
)

func junk(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(3) {
	case 0:
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
	case 1:
		for i := range b {
			b[i] = "abcdefghij klmnop\n"[r.Intn(18)]
		}
	default:
		s := "// Code generated earlier.\npackage crunch\n\nfunc leftover() {}\n"
		for i := range b {
			b[i] = s[i%len(s)]
		}
	}
	return b
}

func magic(r *rand.Rand) string {
	return fmt.Sprintf("//generator:complex %s %s %s %s %s", pick(r, []string{"Buffer", "MiniBuffer"}), pick(r, []string{"Read", "Write"}), pick(r, []string{"U", "I", "F"}), pick(r, []string{"16", "32", "64"}), pick(r, []string{"BE", "LE"}))
}

func template(r *rand.Rand) []byte {
	switch x := r.Intn(200); {
	case x < 6:
		return nil
	case x < 7 && len(Real) > 0:
		return Real[pick(r, sorted(Real))]
	}
	var b strings.Builder
	if r.Intn(8) > 0 {
		b.WriteString("/*\n\ncrunch\n\n*/\n\npackage crunch\n\nimport \"unsafe\"\n\n")
	}
	n := 0
	switch x := r.Intn(20); {
	case x < 8:
	case x < 16:
		n = 1
	case x < 19:
		n = 2
	default:
		n = 3 + r.Intn(3)
	}
	lines := func() {
		for k := r.Intn(4); k > 0; k-- {
			switch r.Intn(12) {
			case 0:
				b.WriteString(pick(r, []string{"//generator:complex Buffer Read U 16\n", " //generator:complex Buffer Read U 16 BE\n", "//generator:complex Buffer Read U 16 BE \n", "// generator:complex Buffer Read U 16 LE\n", "//generator:simple Buffer\n", "//generator:complex Buffer Read U 7 BE\n", "//generator:complex Foo Read U 16 BE\n", "//generator:complex Buffer Write X 32 LE\n"}))
			case 1:
				b.Write(junk(r, r.Intn(700)))
				b.WriteString("\n")
			case 2:
				b.WriteString("// \u00e9\u4e16\xff\r\n")
			default:
				fmt.Fprintf(&b, "// line %d of this template, %x\n", k, r.Intn(1<<30))
			}
		}
	}
	lines()
	for ; n > 0; n-- {
		b.WriteString(magic(r))
		b.WriteString("\n")
		lines()
	}
	switch x := r.Intn(150); {
	case x < 3: // larger than any convenient buffer
		b.WriteString(strings.Repeat("// filler, filler, filler, filler, filler\n", 100+r.Intn(5000)))
	case x == 3 && r.Intn(12) == 0: // more than a mebibyte
		b.WriteString(strings.Repeat("// filler, filler, filler, filler, filler\n", 25_000+r.Intn(8000)))
	case x < 5: // a very long line
		b.WriteString("// " + strings.Repeat("x", 60_000+r.Intn(20_000)) + "\n")
	}
	s := b.String()
	if r.Intn(6) == 0 {
		s = strings.TrimRight(s, "\n")
	}
	return []byte(s)
}

// leftover makes the earlier contents of an output whose right contents are want.
func leftover(r *rand.Rand, want, tm string) ([]byte, bool) {
	flip := func(at int) []byte {
		b := []byte(want)
		if len(b) > 0 {
			b[min(at, len(b)-1)] ^= byte(1 + r.Intn(255))
		}
		return b
	}
	switch r.Intn(14) {
	case 0, 1:
		return nil, false
	case 2, 3:
		return append([]byte(want), junk(r, 1+r.Intn(400))...), true
	case 4:
		return []byte(want)[:r.Intn(len(want)+1)], true
	case 5:
		return flip(max(0, len(want)-1-r.Intn(20))), true
	case 6:
		if len(want) == 0 {
			return nil, true
		}
		return flip(r.Intn(len(want))), true
	case 7:
		return junk(r, r.Intn(300)), true
	case 8:
		return junk(r, len(want)), true
	case 9:
		return nil, true
	case 10:
		return []byte(want), true
	case 11:
		return []byte(tm), true
	case 12: // a torn rewrite: new head, old tail
		k := r.Intn(len(want) + 1)
		return append([]byte(want[:k]), junk(r, max(0, len(want)-k+r.Intn(200)-100))...), true
	default:
		return junk(r, 4000+r.Intn(30_000)), true
	}
}

type gen struct {
	r     *rand.Rand
	c     *Case
	files map[string]File
	order []string
}

func (g *gen) put(f File) {
	if _, ok := g.files[f.Path]; !ok {
		g.order = append(g.order, f.Path)
	}
	if g.r.Intn(2) == 0 {
		f.Mtime = g.r.Intn(100) - 50
	}
	g.files[f.Path] = f
}

// Generate makes the case of a seed.
func Generate(prop string, seed uint64) *Case {
	r := rng.New(seed)
	c := &Case{Property: prop, Seed: seed}
	g := &gen{r: r, c: c, files: map[string]File{}}

	target := pick(r, []string{"/work/crunch/v3", "/work/crunch/v3", "/srv/t", "/t", "/work/_t.go"})
	g.put(File{Path: target, Dir: true})
	near := path.Dir(target)
	cwds := []string{target, target, near, "/", "/home/u", path.Join(near, "generation"), path.Join(target, "sub")}
	for _, d := range cwds {
		g.put(File{Path: d, Dir: true})
	}

	// the templates
	tm := map[string]string{}
	names := templateNames
	if prop == "C14" || prop == "C22" {
		names = append(append([]string{}, names...), doubled...)
	}
	k := 1 + r.Intn(3)
	switch x := r.Intn(20); {
	case x == 0:
		k = 0
	case x < 4:
		k = 4 + r.Intn(6)
	}
	for _, i := range r.Perm(len(names))[:k] {
		d := template(r)
		tm[names[i]] = string(d)
		g.put(File{Path: path.Join(target, names[i]), Data: d})
	}
	mass := 0 // more failures than an exit status can count
	if prop != "C12" && r.Intn(150) == 0 {
		mass = pick(r, []int{255, 256, 256, 256, 257, 512, 100 + r.Intn(500)})
		for n := range tm {
			delete(g.files, path.Join(target, n))
			delete(tm, n)
		}
		for i := 0; i < mass; i++ {
			n := fmt.Sprintf("_m%03d.go", i)
			tm[n] = fmt.Sprintf("package m // %d\n", i)
			g.put(File{Path: path.Join(target, n), Data: []byte(tm[n])})
		}
	}
	outs := map[string]bool{}
	for n := range tm {
		outs[OutputName(n)] = true
	}
	cl := CleanRun(tm)

	// what earlier runs left
	for _, n := range sorted(tm) {
		if mass > 0 {
			continue
		}
		if cl.OK {
			if d, ok := leftover(r, cl.Out[OutputName(n)], tm[n]); ok {
				g.put(File{Path: path.Join(target, OutputName(n)), Data: d})
			}
		} else if r.Intn(2) == 0 {
			g.put(File{Path: path.Join(target, OutputName(n)), Data: junk(r, r.Intn(500))})
		}
	}
	if prop != "C12" && r.Intn(8) == 0 && len(tm) > 0 { // an output that cannot be opened
		n := OutputName(pick(r, sorted(tm)))
		p := path.Join(target, n)
		if _, ok := g.files[p]; ok {
			delete(g.files, p)
		}
		g.put(File{Path: p, Dir: true})
		if r.Intn(2) == 0 {
			g.put(File{Path: path.Join(p, "inside.go"), Data: []byte("package inside\n")})
		}
	}

	// everything else
	other := func(dir string, p float64) {
		for _, n := range ordinary {
			if r.Float64() < p && !(dir == target && outs[n]) {
				g.put(File{Path: path.Join(dir, n), Data: junk(r, r.Intn(200))})
			}
		}
	}
	other(target, 0.15)
	for _, n := range dirNames {
		if r.Intn(4) == 0 && !outs[n] {
			d := path.Join(target, n)
			g.put(File{Path: d, Dir: true})
			for _, t := range templateNames[:4] {
				if r.Intn(4) == 0 {
					g.put(File{Path: path.Join(d, t), Data: []byte("package decoy\n" + magic(r) + "\n")})
				}
				if r.Intn(4) == 0 {
					g.put(File{Path: path.Join(d, OutputName(t)), Data: junk(r, r.Intn(100))})
				}
			}
		}
	}
	for _, d := range cwds[2:] {
		if r.Intn(2) == 0 {
			other(d, 0.05)
			for _, t := range append(sorted(tm), templateNames[:2]...) {
				if r.Intn(2) == 0 {
					g.put(File{Path: path.Join(d, t), Data: []byte("package decoy\n" + magic(r) + "\n")})
				}
				if r.Intn(2) == 0 {
					g.put(File{Path: path.Join(d, OutputName(t)), Data: junk(r, r.Intn(100))})
				}
			}
		}
	}
	if r.Intn(25) == 0 { // a crowded directory
		for i, n := 0, 20+r.Intn(300); i < n; i++ {
			g.put(File{Path: path.Join(target, fmt.Sprintf("%sfile%03d%s", pick(r, []string{"", "_", "x_"}), i, pick(r, []string{".txt", ".c", ""}))), Data: []byte("x")})
		}
	}
	for _, p := range g.order {
		if f, ok := g.files[p]; ok {
			c.Files = append(c.Files, f)
		}
	}

	if r.Intn(4) > 0 {
		c.Order = 1 + uint64(r.Int63())
	}
	bytes := 0
	for n := range tm {
		bytes += len(tm[n])
		bytes += len(cl.Out[OutputName(n)])
	}
	if r.Intn(5) < 2 {
		c.Chunk = max(pick(r, []int{1, 7, 64, 512, 4096}), bytes/400)
		if c.Order == 0 {
			c.Order = 1
		}
	}
	calls := max(6, cl.Calls)
	if !cl.OK {
		calls = 60
	}
	if c.Chunk > 0 {
		calls += bytes * 2 / (c.Chunk + 1)
	}

	fault := func(kill bool) simos.Fault {
		f := simos.Fault{At: 1 + r.Intn(calls+2), N: r.Intn(16)}
		if r.Intn(3) == 0 && calls > 30 { // nearer to the ends
			f.At = 1 + r.Intn(12)
			if r.Intn(2) == 0 {
				f.At = max(1, calls-r.Intn(12))
			}
		}
		switch {
		case kill:
			f.What = pick(r, []string{"kill", "killmid"})
		default:
			f.What = pick(r, []string{"error", "error", "error", "short"})
			if r.Intn(6) == 0 { // one and the same error, whatever the call is
				f.Err = pick(r, []string{"EIO", "ENOSPC", "EACCES", "ENOENT", "ESTALE"})
			}
			if r.Intn(8) == 0 || prop == "C22" && r.Intn(2) == 0 {
				f.Lasts, f.N = true, 4+r.Intn(12)
				if r.Intn(3) > 0 {
					f.Op = pick(r, []string{"open", "read", "write", "write", "truncate", "close", "readdir", "stat", "rename", "remove", "mkdir"})
					f.At = 1 + r.Intn(min(calls, 8))
				}
				if r.Intn(2) == 0 && len(tm) > 0 { // one bad file
					n := pick(r, sorted(tm))
					if r.Intn(2) == 0 {
						n = OutputName(n)
					}
					f.At, f.Path = 1, path.Join(target, n)
				}
			}
		}
		return f
	}
	proc := func(mayBeInvalid bool) *Proc {
		p := &Proc{Cwd: pick(r, cwds), Target: target}
		dir := target
		if rel, err := filepath.Rel(p.Cwd, target); err == nil && r.Intn(2) == 0 {
			dir = rel
			if r.Intn(4) == 0 {
				dir = "./" + rel
			}
		}
		switch r.Intn(10) {
		case 0:
			dir += "/"
		case 1:
			dir += "/."
		case 2:
			dir = path.Dir(target) + "/./" + path.Base(target) + "//"
		}
		mode := "complex"
		var args []string
		useDir := !(p.Cwd == target && r.Intn(2) == 0)
		if mayBeInvalid && r.Intn(8) == 0 {
			switch r.Intn(6) {
			case 0:
				mode, p.BadMode = "", true
			case 1:
				mode, p.BadMode = pick(r, []string{"simple", "Complex", "complexx", "all", " complex"}), true
			case 2:
				dir, p.Target = pick(r, []string{"/nowhere", "missing", target + "/nope", "/work/nope/v3"}), ""
			case 3:
				dir, p.Target = path.Join(target, "regular-file"), ""
				if len(tm) > 0 {
					dir = path.Join(target, pick(r, sorted(tm)))
				} else {
					c.Files = append(c.Files, File{Path: dir, Data: []byte("x")})
				}
			default:
				mode, p.BadMode = "-", true // no such argument at all
			}
			useDir = useDir || p.Target == ""
		}
		eq := r.Intn(2) == 0
		arg := func(n, v string) {
			if eq {
				args = append(args, n+"="+v)
			} else {
				args = append(args, n, v)
			}
		}
		first := r.Intn(2) == 0
		if useDir && first {
			arg("-directory", dir)
		}
		if mode != "-" {
			arg("-generation", mode)
		}
		if useDir && !first {
			arg("-directory", dir)
		}
		p.Args = append([]string{"generation"}, args...)
		return p
	}
	policy := func() Policy {
		p := Policy{Seed: r.Uint64()}
		switch r.Intn(3) {
		case 0:
			p.Name, p.P = "random", pick(r, []float64{0.05, 0.3, 0.7})
		case 1:
			p.Name, p.K = "pct", calls
		default:
			p.Name, p.K = "burst", 1+r.Intn(20)
		}
		return p
	}
	procs := func(weights ...int) int {
		t := 0
		for _, w := range weights {
			t += w
		}
		x := r.Intn(t)
		for i, w := range weights {
			if x < w {
				return i + 1
			}
			x -= w
		}
		return 1
	}
	// edits: what a user does to the directory between runs
	edits := func() (l []File) {
		if len(tm) == 0 || r.Intn(4) > 0 {
			return nil
		}
		n := pick(r, sorted(tm))
		p := path.Join(target, n)
		f := File{Path: p, Mtime: r.Intn(100) - 50}
		switch r.Intn(4) {
		case 0: // shorter
			f.Data = []byte(tm[n])[:len(tm[n])/2]
		case 1:
			f.Data = template(r)
		case 2: // the same size
			b := []byte(tm[n])
			for i := range b {
				if b[i] >= '0' && b[i] <= '9' && !strings.Contains(string(b[max(0, i-60):i]), "generator:") {
					b[i] = '0' + (b[i]-'0'+1)%10
				}
			}
			f.Data = b
		default: // its output is deleted
			f = File{Path: path.Join(target, OutputName(n)), Gone: true}
		}
		if !f.Gone {
			tm[n] = string(f.Data)
		}
		return []File{f}
	}

	round := func() *Round { return &Round{Free: -1, Policy: policy()} }
	full := func() int { return r.Intn(bytes + 2) }
	switch prop {
	case "C12":
		for n := r.Intn(4); n > 0; n-- {
			rd := round()
			if len(c.Rounds) > 0 {
				rd.Edits = edits()
			}
			for m := procs(4, 2, 1); m > 0; m-- {
				p := proc(true)
				switch x := r.Intn(10); {
				case x < 6:
					p.Faults = append(p.Faults, fault(true))
				case x < 8:
					p.Faults = append(p.Faults, fault(false))
				}
				rd.Procs = append(rd.Procs, p)
			}
			if r.Intn(7) == 0 {
				rd.Free = full()
			}
			c.Rounds = append(c.Rounds, rd)
		}
		rd := round()
		if len(c.Rounds) > 0 {
			rd.Edits = edits()
		}
		for m := procs(6, 4, 2); m > 0; m-- {
			rd.Procs = append(rd.Procs, proc(false))
		}
		c.Rounds = append(c.Rounds, rd)
	case "C13":
		for n := 1 + r.Intn(3); n > 0; n-- {
			rd := round()
			if len(c.Rounds) > 0 {
				rd.Edits = edits()
			}
			p := proc(true)
			for k := pick(r, []int{0, 1, 1, 1, 1, 2, 2, 3}); k > 0; k-- {
				p.Faults = append(p.Faults, fault(r.Intn(12) == 0))
			}
			if r.Intn(5) == 0 {
				rd.Free = full()
			}
			if mass > 0 && r.Intn(4) > 0 {
				p.Faults, rd.Free = nil, 0
			}
			rd.Procs = []*Proc{p}
			c.Rounds = append(c.Rounds, rd)
		}
	case "C22":
		for n := 1 + r.Intn(3); n > 0; n-- {
			rd := round()
			if len(c.Rounds) > 0 {
				rd.Edits = edits()
			}
			for m := procs(5, 4, 2); m > 0; m-- {
				p := proc(true)
				for k := r.Intn(3); k > 0; k-- {
					f := fault(r.Intn(3) == 0)
					if r.Intn(4) == 0 {
						f = simos.Fault{At: f.At, What: "stop"}
					}
					p.Faults = append(p.Faults, f)
				}
				rd.Procs = append(rd.Procs, p)
			}
			if r.Intn(7) == 0 {
				rd.Free = full()
			}
			c.Rounds = append(c.Rounds, rd)
		}
	default:
		for n := 1 + r.Intn(3); n > 0; n-- {
			rd := round()
			if len(c.Rounds) > 0 {
				rd.Edits = edits()
			}
			for m := procs(6, 3, 1); m > 0; m-- {
				p := proc(true)
				for k := r.Intn(3); k > 0; k-- {
					p.Faults = append(p.Faults, fault(r.Intn(2) == 0))
				}
				rd.Procs = append(rd.Procs, p)
			}
			if r.Intn(7) == 0 {
				rd.Free = full()
			}
			c.Rounds = append(c.Rounds, rd)
		}
	}
	return c
}

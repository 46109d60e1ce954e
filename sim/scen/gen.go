package scen

import (
	"math/rand"
	"slices"
	"strings"

	"crunchsim/buf"
	"crunchsim/rt"
)

// hint is what the generator believes about a buffer (it need not be exact).
type hint struct {
	k    *buf.Kind
	cap  int64
	off  int64
	boff int64
	hot  int64   // a position several calls gather around
	typ  *buf.Op // the element type of all typed calls, when it is fixed
}

var (
	getters = []string{"bytes", "cap", "bcap", "off", "boff", "after", "afterbit"}
	cursors = []string{"seek", "seekbit", "alignbit", "alignbyte"}
	readsF  = []string{"readbyte", "readbytes", "read", "readbit", "readbits"}
	writesF = []string{"writebyte", "writebytes", "write", "setbit", "clearbit", "setbits", "flipbit"}
	wholeF  = []string{"clearall", "setall", "flipall"}
	sizesF  = []string{"grow", "reset", "refresh", "truncl", "truncr"}
)

// weighted list of all families
func families(k *buf.Kind) []string {
	var l []string
	for _, g := range []struct {
		f []string
		n int
	}{{getters, 1}, {cursors, 2}, {readsF, 4}, {writesF, 3}, {wholeF, 1}, {sizesF, 2}} {
		for _, f := range g.f {
			if f != "read" && f != "write" && !k.Has(&buf.Op{F: f}) {
				continue
			}
			n := g.n
			if f == "read" || f == "write" {
				n *= 2
			}
			for i := 0; i < n; i++ {
				l = append(l, f)
			}
		}
	}
	return l
}

// subset picks a few families for one case, so that runs concentrate.
func subset(r *rand.Rand, l []string, n int) []string {
	if r.Intn(5) == 0 {
		return l
	}
	m := map[string]bool{}
	for i := 0; i < 200 && len(m) < n; i++ {
		m[pick(r, l)] = true
	}
	var o []string
	for _, f := range l {
		if m[f] {
			o = append(o, f)
		}
	}
	return o
}

func genCap(r *rand.Rand) int {
	switch x := r.Intn(1000); {
	case x < 50:
		return 0
	case x < 350:
		return 1 + r.Intn(8)
	case x < 760:
		return 9 + r.Intn(16)
	case x < 945:
		return 25 + r.Intn(40)
	case x < 994:
		return 65 + r.Intn(240)
	case x < 999:
		return 500 + r.Intn(4000)
	default:
		switch r.Intn(40) {
		case 0:
			// beyond any threshold for doing it differently
			return pick(r, []int{140_000, 300_000, 1 << 20}) + r.Intn(1000)
		case 1, 2, 3:
			return 70_000 + r.Intn(1000)
		}
		// where counters of 16 bits end: in bits, in bytes
		return pick(r, []int{8185, 8185, 32760, 65530}) + r.Intn(16)
	}
}

// shape makes a few cases long (histories of many calls) or crowded (many
// goroutines); it returns the number of tasks, of calls per task and in all.
func shape(r *rand.Rand, tasks, per, budget int) (int, int, int) {
	switch r.Intn(120) {
	case 0:
		if r.Intn(25) == 0 { // more calls than a small counter can count
			return min(tasks, 2), per * 300, budget * 120
		}
		return min(tasks, 3), per * 20, budget * 12
	case 1:
		if r.Intn(6) == 0 {
			return 8 + r.Intn(6), 1, 14
		}
		return 5 + r.Intn(3), 2, 14
	}
	return tasks, per, budget
}

func genBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		for i := range b {
			b[i] = byte(i + 1)
		}
	default:
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
	}
	return b
}

func edge(r *rand.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	case 2:
		return 1 << uint(r.Intn(64))
	}
	return r.Uint64()
}

type genOpt struct {
	bad    float64 // chance of out-of-range arguments
	next   float64 // chance of the Next form
	zero   float64 // chance of empty requests
	wild   float64 // among bad: chance of values near the limits of int64
	noGrow bool
	maxLen int
}

func length(r *rand.Rand, unit, room int64, maxLen int) int64 {
	// number of elements of size unit
	m := room / unit
	if m < 1 {
		return 1
	}
	if room > 8_000 && r.Intn(3) == 0 {
		// buffers as large as this are rare: use them
		return max(1, m-r.Int63n(1+r.Int63n(m)))
	}
	switch r.Intn(10) {
	case 0:
		if m > int64(maxLen) {
			m = int64(maxLen)
		}
		return m
	case 1, 2:
		if m > int64(maxLen) {
			m = int64(maxLen)
		}
		return 1 + r.Int63n(m)
	}
	if m > 5 {
		m = 5
	}
	return 1 + r.Int63n(m)
}

// genOp makes a call of family f.
func genOp(r *rand.Rand, h *hint, f string, o genOpt) *buf.Op {
	k := h.k
	op := &buf.Op{F: f}
	if k.Mini {
		if op.Pre = r.Uint64(); r.Intn(4) == 0 {
			op.Pre = edge(r)
		}
	}
	maxLen := o.maxLen
	if maxLen == 0 {
		maxLen = 1 << 14
	}
	bad := r.Float64() < o.bad
	place := func(limit, cur, n int64) int64 {
		if bad {
			if r.Float64() < o.wild {
				return pick(r, []int64{1<<63 - 1, 1<<63 - 2, 1<<63 - 8, -1 << 63, 1 << 62, -(1 << 62), 1<<63 - 64})
			}
			switch r.Intn(4) {
			case 0:
				return -1 - r.Int63n(9)
			case 1:
				return limit + r.Int63n(9)
			default:
				return limit - n + 1 + r.Int63n(n+1)
			}
		}
		if limit-n <= 0 {
			return 0
		}
		switch r.Intn(6) {
		case 0:
			return limit - n
		case 1, 2, 3:
			p := h.hot + r.Int63n(3) - 1
			if limit == h.cap*8 {
				p = h.hot*8 + r.Int63n(17) - 8
			}
			if p < 0 {
				p = 0
			}
			if p > limit-n {
				p = limit - n
			}
			return p
		}
		return r.Int63n(limit - n + 1)
	}
	bytesRoom := func() int64 {
		if op.Next {
			return h.cap - h.off
		}
		return h.cap
	}
	bcap := h.cap * 8
	switch f {
	case "readbyte", "readbytes", "read", "readbit", "readbits", "writebyte", "writebytes", "write", "setbit", "clearbit", "setbits", "flipbit":
		op.Next = r.Float64() < o.next
		if k.Mini && (f == "readbyte" || f == "writebyte") {
			return nil
		}
	}
	zero := r.Float64() < o.zero && !k.Mini
	switch f {
	case "grow":
		op.N = int64(r.Intn(12))
		if r.Intn(20) == 0 {
			op.N = int64(60 + r.Intn(100))
			if r.Intn(8) == 0 {
				op.N = int64(200 + r.Intn(5000))
				if r.Intn(20) == 0 {
					op.N *= 40
				}
			}
		}
		if bad && !k.Mini {
			op.N = -1 - r.Int63n(3)
		}
	case "truncl", "truncr":
		op.N = r.Int63n(3)
		if r.Intn(4) == 0 && h.cap > 0 {
			op.N = r.Int63n(h.cap + 1)
		}
		if bad && !k.Mini {
			op.N = pick(r, []int64{-1, h.cap + 1, h.cap + 7, -9})
		}
	case "seek":
		op.Rel = r.Intn(3) == 0
		if op.Rel {
			op.Off = int64(r.Intn(7) - 3)
		} else {
			op.Off = r.Int63n(h.cap + 1)
		}
		if bad {
			op.Off = int64(r.Intn(60) - 20)
		}
	case "seekbit":
		op.Rel = r.Intn(3) == 0
		if op.Rel {
			op.Off = int64(r.Intn(19) - 9)
		} else {
			op.Off = r.Int63n(bcap + 1)
		}
		if bad {
			op.Off = int64(r.Intn(300) - 60)
		}
	case "after", "afterbit":
		op.Has = r.Intn(2) == 0
		if op.Has {
			op.Off = int64(r.Intn(40) - 8)
			if r.Intn(8) == 0 {
				op.Off = r.Int63n(2*bcap + 2)
			}
		}
	case "readbyte":
		op.N = 0
		op.Off = place(h.cap, h.off, 1)
	case "writebyte":
		op.Bit = byte(r.Intn(256))
		op.Off = place(h.cap, h.off, 1)
	case "readbytes":
		op.N = length(r, 1, bytesRoom(), maxLen)
		op.Off = place(h.cap, h.off, op.N)
		if zero {
			op.N = 0
		} else if bad && !k.Mini && r.Intn(8) == 0 {
			op.N = -1 - r.Int63n(4)
		}
	case "read":
		genKind(r, h, op)
		op.N = length(r, int64(op.Size), bytesRoom(), maxLen/op.Size)
		op.Off = place(h.cap, h.off, op.N*int64(op.Size))
		if zero {
			op.N = 0
		}
	case "writebytes":
		n := length(r, 1, bytesRoom(), maxLen)
		op.Off = place(h.cap, h.off, n)
		if zero {
			n = 0
		}
		op.Data = genBytes(r, int(n))
	case "write":
		genKind(r, h, op)
		n := length(r, int64(op.Size), bytesRoom(), maxLen/op.Size)
		op.Off = place(h.cap, h.off, n*int64(op.Size))
		if zero {
			n = 0
		}
		op.Vals = make([]uint64, n)
		for i := range op.Vals {
			op.Vals[i] = edge(r) & (^uint64(0) >> uint(64-8*op.Size))
		}
	case "readbit", "flipbit", "clearbit":
		op.Off = place(bcap, h.boff, 1)
	case "setbit":
		op.Bit = byte(r.Intn(2))
		op.Off = place(bcap, h.boff, 1)
		if bad && k.V != 3 && !k.Mini && r.Intn(3) == 0 {
			op.Bit = byte(2 + r.Intn(254))
			op.Off = 0
		}
	case "readbits", "setbits":
		n := int64(1 + r.Intn(12))
		switch r.Intn(8) {
		case 0:
			n = int64(13 + r.Intn(52))
		case 1:
			n = pick(r, []int64{8, 16, 24, 32, 48, 63, 64})
		case 2:
			if r.Intn(8) == 0 {
				n = int64(65 + r.Intn(20))
			}
		}
		if room := bcap; n > room && !bad {
			n = max(1, room)
		}
		op.N = n
		op.Off = place(bcap, h.boff, n)
		op.Val = edge(r)
	}
	if op.Next {
		op.Off = 0
		switch f {
		case "readbyte", "writebyte":
			h.off++
		case "readbytes":
			h.off += op.N
		case "read":
			h.off += op.N * int64(op.Size)
		case "writebytes", "write":
			h.off += int64(len(op.Encode()))
		}
	}
	if !k.Has(op) {
		return nil
	}
	return op
}

func genKind(r *rand.Rand, h *hint, op *buf.Op) {
	if h.typ != nil {
		op.K, op.Size, op.Big = h.typ.K, h.typ.Size, h.typ.Big
		return
	}
	k := h.k
	op.K, op.Size, op.Big = "U", pick(r, []int{2, 4, 8}), r.Intn(2) == 0
	switch k.V {
	case 1:
		op.Size = pick(r, []int{1, 2, 4, 8})
	case 3:
		op.K = pick(r, []string{"U", "I", "F"})
		if op.K == "F" {
			op.Size = pick(r, []int{4, 8})
		}
	}
}

// focus makes one case in seven call few methods, and those often: what several
// calls of one method do to each other shows when they are close together.
func focus(r *rand.Rand, c *Case, fams []string, h *hint) ([]string, int) {
	if r.Intn(7) > 0 || c.TypedOnly {
		return fams, 1
	}
	var l []string
	for n := 1 + r.Intn(2); n > 0; n-- {
		l = append(l, pick(r, fams))
	}
	h.typ = &buf.Op{}
	genKind(r, &hint{k: h.k}, h.typ)
	return l, 1 + r.Intn(5)
}

// burst makes one call many times in a row, often between two calls that are
// alike: counters of calls come round, slots run out.
func burst(r *rand.Rand, c *Case) {
	n := 20 + r.Intn(500)
	switch x := r.Intn(20); {
	case x < 8:
		n = 255 + r.Intn(3)
	case x < 12:
		n = pick(r, []int{127, 128, 129})
	case x < 15:
		n = pick(r, []int{15, 16, 17, 31, 32, 33, 63, 64, 65})
	case x < 18:
		n = pick(r, []int{511, 512, 513, 767, 768, 1023, 1024, 1025})
	}
	size := 0
	for _, b := range c.Bufs {
		for _, s := range b.Slices {
			size += len(s)
		}
	}
	for _, s := range c.Inputs {
		size += len(s)
	}
	fits := func(op *buf.Op) bool { return units(op)*n < 20_000 && size < 300 && op.Rep == 0 }
	again := func(op *buf.Op) *buf.Op {
		o := *op
		o.Rep = n
		return &o
	}
	if c.Mode == "lin" || c.Mode == "readers" {
		b := r.Intn(len(c.Bufs))
		spec := c.Bufs[b]
		m := buf.NewState(slices.Concat(spec.Slices...))
		for _, op := range spec.Pre {
			if op.F == "grow" || op.F == "reset" || op.F[:2] == "tr" {
				return
			}
			m.Apply(spec.kind(), op, &buf.Res{NoContent: true}, false)
		}
		var l, reads []*buf.Op
		for _, p := range c.Progs {
			for _, st := range p {
				switch {
				case st.A != "call" || st.B != b || st.Fault > 0:
				case m.Fails(spec.kind(), st.Op):
					if fits(st.Op) {
						l = append(l, st.Op)
					}
				case st.Op.Next || !m.Succeeds(spec.kind(), st.Op):
				case strings.HasPrefix(st.Op.F, "read"):
					reads = append(reads, st.Op)
					l = append(l, st.Op)
				case st.Op.F != "grow" && st.Op.F != "reset" && fits(st.Op):
					l = append(l, st.Op)
				}
			}
		}
		if len(l) == 0 || r.Intn(4) == 0 {
			l = []*buf.Op{{F: "flipbit", Off: int64(r.Intn(1 + 8*len(m.Data)))}}
			if !m.Succeeds(spec.kind(), l[0]) {
				return
			}
		}
		op := pick(r, l)
		if !fits(op) {
			return
		}
		if len(reads) > 0 {
			spec.Pre = append(spec.Pre, pick(r, reads))
		}
		spec.Pre = append(spec.Pre, again(op))
		return
	}
	var lists []*[]*Step
	for i := range c.Progs {
		if len(c.Progs[i]) > 0 && c.Progs[i][0].A != "section" {
			lists = append(lists, &c.Progs[i])
		}
		for _, st := range c.Progs[i] {
			if len(st.Sub) > 0 {
				lists = append(lists, &st.Sub)
			}
		}
	}
	if len(lists) == 0 {
		return
	}
	l := pick(r, lists)
	i := r.Intn(len(*l))
	st := (*l)[i]
	if st.A != "call" || st.Fault > 0 || !fits(st.Op) {
		return
	}
	rep := *st
	rep.Op = again(st.Op)
	add := []*Step{&rep}
	for try := 0; try < 4; try++ {
		o := pick(r, *l)
		if o.A == "call" && o.Fault == 0 && o.B == st.B && strings.HasPrefix(o.Op.F, "read") && fits(o.Op) {
			x, y := *o.Op, *o.Op
			if try < 3 {
				x.Next, y.Next = false, false
			}
			add = []*Step{{A: "call", B: o.B, Op: &x}, &rep, {A: "call", B: o.B, Op: &y}}
			break
		}
	}
	*l = slices.Replace(*l, i, i+1, add...)
}

// sharePayloads makes several writes pass the same slice, as callers may who
// only read it.
func sharePayloads(r *rand.Rand, c *Case) {
	var l []*buf.Op
	for _, op := range c.ops() {
		if op.F == "writebytes" && len(op.Data) > 0 || op.F == "write" && len(op.Vals) > 0 {
			l = append(l, op)
		}
	}
	if len(l) < 2 {
		return
	}
	p := pick(r, l)
	n := 0
	for _, op := range l {
		switch {
		case op == p || op.F != p.F || op.K != p.K || op.Size != p.Size:
		case op.F == "writebytes" && len(op.Data) <= len(p.Data):
			op.Data, op.Share = p.Data[:len(op.Data)], 1
			n++
		case op.F == "write" && len(op.Vals) <= len(p.Vals):
			op.Vals, op.Share = p.Vals[:len(op.Vals)], 1
			n++
		}
	}
	if n > 0 {
		p.Share = 1
	}
}

func genPolicy(r *rand.Rand, c *Case) {
	u, n := 0, 0
	for _, p := range c.Progs {
		for _, st := range p {
			n += st.ops() + 1
			if st.Op != nil {
				u += units(st.Op)
			}
			for _, s := range st.Sub {
				if s.Op != nil {
					u += units(s.Op)
				}
			}
		}
	}
	est := 8*n + 2*min(u, 2000)
	p := Policy{Seed: r.Uint64()}
	switch x := r.Intn(100); {
	case x < 45:
		p.Name, p.P = "walk", pick(r, []float64{0.03, 0.1, 0.25, 0.5, 0.8})
	case x < 80:
		p.Name, p.D, p.K = "pct", 1+r.Intn(4), est
	default:
		p.Name, p.K = "burst", pick(r, []int{2, 5, 12, 30})
	}
	c.Policy = p
}

func bufSpec(r *rand.Rand, k *buf.Kind, size int) *BufSpec {
	b := &BufSpec{Kind: k.Name, Slices: [][]byte{genBytes(r, size)}}
	if r.Intn(4) == 0 {
		b.Spare = r.Intn(24)
	}
	return b
}

// pre positions the cursors before the tasks start.
func pre(r *rand.Rand, b *BufSpec, h *hint) {
	if r.Intn(3) == 0 && h.cap > 0 {
		h.off = r.Int63n(h.cap)
		f := "seek"
		b.Pre = append(b.Pre, &buf.Op{F: f, Off: h.off})
	}
	if r.Intn(3) == 0 && h.cap > 0 {
		h.boff = r.Int63n(h.cap * 8)
		b.Pre = append(b.Pre, &buf.Op{F: "seekbit", Off: h.boff})
	}
	if r.Intn(6) == 0 {
		n := int64(r.Intn(10))
		h.cap += n
		b.Pre = append(b.Pre, &buf.Op{F: "grow", N: n})
	}
	if h.cap > 0 {
		h.hot = r.Int63n(h.cap)
	}
}

// Generate makes the case of one seed.
func Generate(prop string, seed uint64) (*Case, Options) {
	r := NewRand(seed)
	c := &Case{Property: prop, Seed: seed}
	opt := OptionsFor(prop)
	switch prop {
	case "C01", "C02", "C05":
		genShared(r, c, prop)
	case "C03":
		genNext(r, c)
	case "C04":
		genFailing(r, c)
	case "C06":
		genHolders(r, c)
	case "C07", "C10", "C11":
		genSections(r, c, prop)
	case "C08":
		genOwn(r, c)
	case "C09":
		genReaders(r, c)
	case "C18":
		c.Twin = true
		switch r.Intn(8) {
		case 0:
			genReaders(r, c)
		case 1, 2:
			genSections(r, c, "C11")
		case 3, 4, 5:
			c.TypedOnly = true
			fallthrough
		default:
			genSections(r, c, "C10")
		}
	case "C20":
		switch r.Intn(8) {
		case 0, 1, 2:
			genShared(r, c, prop)
		case 3:
			genSections(r, c, "C07")
		case 4, 5:
			genSections(r, c, "C10")
		case 6:
			genOwn(r, c)
		default:
			genReaders(r, c)
		}
	case "C21":
		genSections(r, c, prop)
		c.Crash = 1
		if r.Intn(2) == 0 {
			c.Crash = 1 + r.Intn(40)
		}
	default:
		panic("no generator for " + prop)
	}
	if prop != "C03" && prop != "C09" && (r.Intn(5) == 0 || prop == "C20" && r.Intn(2) == 0) {
		sharePayloads(r, c)
	}
	often := 140
	if prop == "C04" {
		often = 70
	}
	if prop != "C03" && r.Intn(often) == 0 {
		burst(r, c)
	}
	genPolicy(r, c)
	if r.Intn(3) == 0 {
		c.Shy = 2 + r.Intn(12)
	}
	c.MaxSteps = c.bound()
	return c, opt
}

// OptionsFor says what decides a property.
func OptionsFor(prop string) Options {
	switch prop {
	case "C01":
		return Options{Lin: true, Outcome: true, Caller: true}
	case "C02":
		return Options{Races: true}
	case "C03":
		return Options{Lin: true, Conserve: true, Outcome: true}
	case "C04":
		return Options{Lin: true, Outcome: true, Caller: true}
	case "C05":
		return Options{Outcome: true, Serves: true}
	case "C06":
		return Options{Lin: true, Exclude: true, Outcome: true, Caller: true}
	case "C07":
		return Options{Races: true, LockNeutral: true, Caller: true}
	case "C08":
		return Options{Races: true, Caller: true}
	case "C09":
		return Options{Races: true, NoWrites: true, Caller: true}
	case "C10", "C18":
		return Options{Races: true, Strict: true, Caller: true}
	case "C11":
		return Options{Races: true, Strict: true, Caller: true}
	case "C20":
		return Options{Lin: true, Races: true, Caller: true, Polite: true}
	case "C21":
		return Options{Wrapped: true, Polite: true}
	}
	panic("no options for " + prop)
}

func locked(r *rand.Rand) *buf.Kind { return pick(r, []*buf.Kind{buf.V1B, buf.V2B}) }

func genShared(r *rand.Rand, c *Case, prop string) {
	c.Mode = "lin"
	nb := 1
	if prop == "C05" && r.Intn(4) == 0 {
		nb = 2
	}
	var hs []*hint
	var fams [][]string
	more := 1
	for i := 0; i < nb; i++ {
		k := locked(r)
		size := genCap(r)
		b := bufSpec(r, k, size)
		h := &hint{k: k, cap: int64(size)}
		pre(r, b, h)
		c.Bufs = append(c.Bufs, b)
		hs = append(hs, h)
		f := subset(r, families(k), 2+r.Intn(5))
		var m int
		f, m = focus(r, c, f, h)
		more = max(more, m)
		fams = append(fams, f)
	}
	o := genOpt{bad: pick(r, []float64{0, 0.05, 0.2}), next: pick(r, []float64{0, 0.4, 0.8}), zero: 0.02, wild: 0.1}
	if prop == "C05" {
		o.bad, o.zero, o.wild = 0.25, 0.05, 0.3
	}
	tasks := 2 + r.Intn(3)
	if prop == "C05" && r.Intn(6) == 0 {
		tasks = 1
	}
	tasks, per, budget := shape(r, tasks, 4, 5+r.Intn(9))
	per, budget = per*more, budget+4*(more-1)
	for i := 0; i < tasks; i++ {
		var p []*Step
		for j := 0; j < 1+r.Intn(per) && budget > 0; j++ {
			b := r.Intn(nb)
			op := genOp(r, hs[b], pick(r, fams[b]), o)
			if op == nil {
				continue
			}
			budget--
			st := &Step{A: "call", B: b, Op: op}
			if prop == "C05" && r.Intn(12) == 0 {
				st.Fault = 1 + r.Intn(1+units(op))
			}
			p = append(p, st)
		}
		c.Progs = append(c.Progs, p)
	}
	if prop == "C05" {
		for n := r.Intn(3); n > 0; n-- {
			c.Stalls = append(c.Stalls, rt.StallAt{Step: 1 + r.Intn(60), Task: r.Intn(tasks), N: pick(r, []int{20, 200, 2000})})
		}
	}
}

func genNext(r *rand.Rand, c *Case) {
	c.Mode = "lin"
	k := locked(r)
	size := 4 + r.Intn(60)
	bits := r.Intn(3) == 0
	maxLen := 16
	if !bits {
		size = 4 + r.Intn(120)
		if r.Intn(40) == 0 {
			size, maxLen = 200+r.Intn(2000), 300
		}
	}
	b := &BufSpec{Kind: k.Name}
	content := make([]byte, size)
	for i := range content {
		content[i] = byte(i)
		if bits {
			content[i] = byte(r.Intn(256))
		}
	}
	b.Slices = [][]byte{content}
	if r.Intn(3) == 0 {
		b.Pre = append(b.Pre, &buf.Op{F: pick(r, []string{"seek", "seekbit"}), Off: int64(r.Intn(4))})
	}
	c.Bufs = []*BufSpec{b}
	tasks := 2 + r.Intn(3)
	fams := []string{"readbyte", "readbytes", "read", "writebyte", "writebytes", "write"}
	if bits {
		fams = []string{"readbit", "readbits", "setbit", "setbits", "flipbit"}
	}
	if r.Intn(2) == 0 {
		fams = subset(r, fams, 2)
	}
	if k.V == 1 || r.Intn(2) == 0 {
		fams = append(fams, pick(r, fams))
	}
	id := 0
	tasks, per, budget := shape(r, tasks, 5, 14)
	if per > 5 {
		budget, size = 100, 300
		b.Slices[0] = append(b.Slices[0], genBytes(r, size)...)[:size]
	}
	room := min(int64(size), 40)
	if maxLen > 16 {
		room = int64(size) / 3
	}
	for i := 0; i < tasks; i++ {
		var p []*Step
		for j := 0; j < 1+r.Intn(per) && budget > 0; j++ {
			op := genOp(r, &hint{k: k, cap: room}, pick(r, fams), genOpt{next: 1, maxLen: maxLen})
			if op == nil {
				continue
			}
			budget--
			if !bits {
				// a payload that names its writer
				switch op.F {
				case "writebyte":
					op.Bit = byte(0x80 + id)
				case "writebytes":
					for x := range op.Data {
						op.Data[x] = byte(0x80 + id)
					}
				case "write":
					for x := range op.Vals {
						v := uint64(0)
						for y := 0; y < op.Size; y++ {
							v = v<<8 | uint64(0x80+id)
						}
						op.Vals[x] = v
					}
				}
				id++
			}
			p = append(p, &Step{A: "call", Op: op})
		}
		c.Progs = append(c.Progs, p)
	}
	// regions can be told apart by their bytes only while there are few
	c.BitsOnly = bits || len(b.Slices[0]) > 124 || id > 100
}

func genFailing(r *rand.Rand, c *Case) {
	c.Mode = "lin"
	k := locked(r)
	size := genCap(r)
	if size > 300 {
		size = 300
	}
	b := bufSpec(r, k, size)
	h := &hint{k: k, cap: int64(size)}
	pre(r, b, h)
	c.Bufs = []*BufSpec{b}
	fams, _ := focus(r, c, subset(r, families(k), 3+r.Intn(5)), h)
	o := genOpt{bad: 0.35, next: pick(r, []float64{0.2, 0.6}), zero: 0.04, wild: 0.15}
	tasks, per, budget := shape(r, 2+r.Intn(2), 4, 10)
	for i := 0; i < tasks; i++ {
		var p []*Step
		for j := 0; j < 1+r.Intn(per) && budget > 0; j++ {
			op := genOp(r, h, pick(r, fams), o)
			if op == nil {
				continue
			}
			budget--
			st := &Step{A: "call", Op: op}
			if r.Intn(3) == 0 {
				st.Fault = 1 + r.Intn(1+2*units(op))
				if r.Intn(3) == 0 {
					st.Fault = 1 + r.Intn(3)
				}
			}
			p = append(p, st)
		}
		c.Progs = append(c.Progs, p)
	}
}

func genHolders(r *rand.Rand, c *Case) {
	c.Mode = "lin"
	k := locked(r)
	size := 1 + r.Intn(16)
	if r.Intn(4) == 0 {
		size = min(max(1, genCap(r)), 4500)
	}
	b := &BufSpec{Kind: k.Name, Slices: [][]byte{genBytes(r, size)}}
	h := &hint{k: k, cap: int64(size)}
	c.Bufs = []*BufSpec{b}
	var l []string
	for _, f := range families(k) {
		if f != "grow" && f != "reset" {
			l = append(l, f)
		}
	}
	fams, _ := focus(r, c, subset(r, l, 2+r.Intn(4)), h)
	o := genOpt{bad: 0.05, next: 0.4}
	tasks, per, budget := shape(r, 2+r.Intn(2), 4, 10)
	holders := 1 + r.Intn(tasks-1)
	for i := 0; i < tasks; i++ {
		var p []*Step
		for j := 0; j < 1+r.Intn(per) && budget > 0; j++ {
			budget--
			if i < holders && r.Intn(3) > 0 {
				st := &Step{A: "hold"}
				for n := 1 + r.Intn(5); n > 0; n-- {
					st.Raw = append(st.Raw, Raw{I: r.Intn(size), Add: byte(r.Intn(3) * (1 + r.Intn(250)))})
				}
				p = append(p, st)
				continue
			}
			if op := genOp(r, h, pick(r, fams), o); op != nil {
				p = append(p, &Step{A: "call", Op: op})
			}
		}
		c.Progs = append(c.Progs, p)
	}
	// sometimes one growing or resetting call, in a run without raw accesses
	if r.Intn(5) == 0 {
		for _, p := range c.Progs {
			for _, st := range p {
				st.Raw = nil
			}
		}
		op := &buf.Op{F: "grow", N: int64(1 + r.Intn(6))}
		if k.V == 2 && r.Intn(2) == 0 {
			op = &buf.Op{F: "reset"}
		}
		i := tasks - 1
		c.Progs[i] = append(c.Progs[i], &Step{A: "call", Op: op})
	}
}

func genSections(r *rand.Rand, c *Case, prop string) {
	c.Mode = "serial"
	kinds := []*buf.Kind{buf.V1M, buf.V2M}
	switch prop {
	case "C10":
		kinds = []*buf.Kind{buf.V3B, buf.V3M}
	case "C11":
		kinds = []*buf.Kind{buf.V3B, buf.V3M, buf.V3B, buf.V3M, buf.V1M, buf.V2M}
	}
	if c.Twin {
		kinds = []*buf.Kind{buf.V3B, buf.V3M}
	}
	if prop == "C21" {
		kinds = buf.All
	}
	nb := 1
	if r.Intn(5) == 0 {
		nb = 2
	}
	var hs []*hint
	var fams [][]string
	more := 1
	for i := 0; i < nb; i++ {
		k := pick(r, kinds)
		size := genCap(r)
		b := bufSpec(r, k, size)
		if r.Intn(4) == 0 && (prop != "C21" || r.Intn(4) == 0) { // several slices
			n := 2 + r.Intn(3)
			b.Slices, b.Spare = nil, 0
			size = 0
			for j := 0; j < n; j++ {
				s := genBytes(r, r.Intn(9))
				size += len(s)
				b.Slices = append(b.Slices, s)
			}
		}
		h := &hint{k: k, cap: int64(size)}
		pre(r, b, h)
		c.Bufs = append(c.Bufs, b)
		hs = append(hs, h)
		f := subset(r, families(k), 3+r.Intn(6))
		var m int
		f, m = focus(r, c, f, h)
		more = max(more, m)
		if c.TypedOnly {
			f = []string{"read", "write"}
		}
		if prop == "C21" && r.Intn(4) > 0 { // nothing that gives up the wrapped memory
			f = slices.DeleteFunc(slices.Clone(f), func(s string) bool { return s == "grow" || s == "reset" })
			if len(f) == 0 {
				f = []string{"write"}
			}
		}
		fams = append(fams, f)
	}
	o := genOpt{bad: 0.1, next: pick(r, []float64{0.2, 0.6}), zero: 0.02, wild: 0.1}
	tasks := 2 + r.Intn(2)
	if prop == "C11" {
		tasks = 1 + r.Intn(2)
	}
	tasks, per, _ := shape(r, tasks, 3, 0)
	per *= more
	if prop == "C11" {
		tasks = min(tasks, 3)
	}
	for i := 0; i < tasks; i++ {
		var p []*Step
		for j := 0; j < 1+r.Intn(per); j++ {
			b := r.Intn(nb)
			sec := &Step{A: "section", B: b}
			for n := 1 + r.Intn(5); n > 0; n-- {
				op := genOp(r, hs[b], pick(r, fams[b]), o)
				if op == nil {
					continue
				}
				if op.F == "grow" && op.N > 0 {
					hs[b].cap += op.N
				}
				if op.F == "reset" {
					hs[b].cap = 0
				}
				if prop == "C21" && r.Intn(6) == 0 {
					p := &Step{A: "poke", B: b}
					for n := 1 + r.Intn(3); n > 0; n-- {
						p.Raw = append(p.Raw, Raw{I: r.Intn(1 + int(hs[b].cap)), Add: byte(1 + r.Intn(255))})
					}
					sec.Sub = append(sec.Sub, p)
				}
				if hs[b].cap < 4 && r.Intn(2) == 0 && prop != "C21" && op.F != "grow" && !c.TypedOnly {
					sec.Sub = append(sec.Sub, &Step{A: "call", B: b, Op: op})
					op = &buf.Op{F: "grow", N: int64(1 + r.Intn(20))}
					hs[b].cap += op.N
				}
				st := &Step{A: "call", B: b, Op: op}
				if prop == "C11" && r.Intn(2) == 0 {
					st.Fault = 1 + r.Intn(1+2*units(op))
					if op.F == "grow" || op.F == "clearall" || op.F == "setall" || op.F == "flipall" {
						st.Fault = 1 + r.Intn(1+2*int(hs[b].cap))
					}
					if r.Intn(3) == 0 {
						st.Fault = 1 + r.Intn(3)
					}
				}
				if prop == "C07" && r.Intn(20) == 0 {
					st.Fault = 1 + r.Intn(1+units(op))
				}
				sec.Sub = append(sec.Sub, st)
			}
			if r.Intn(8) == 0 {
				at := r.Intn(len(sec.Sub) + 1)
				sec.Sub = append(sec.Sub[:at:at], append([]*Step{{A: "panic"}}, sec.Sub[at:]...)...)
			}
			p = append(p, sec)
		}
		c.Progs = append(c.Progs, p)
	}
}

func genOwn(r *rand.Rand, c *Case) {
	c.Mode = "own"
	ni := 2 + r.Intn(2)
	shared := 0
	longest := 12
	if r.Intn(20) == 0 {
		ni, longest = 2+r.Intn(6), pick(r, []int{2, 90, 700, 5000})
	}
	for i := 0; i < ni; i++ {
		s := genBytes(r, r.Intn(longest))
		shared += len(s)
		c.Inputs = append(c.Inputs, s)
	}
	tasks, per, _ := shape(r, 2+r.Intn(2), 6, 0)
	same := r.Intn(2) == 0
	kk := pick(r, buf.All)
	var few []string
	one := &hint{k: kk}
	if same {
		var more int
		if few, more = focus(r, c, families(kk), one); more > 1 {
			per *= more
		}
	}
	for i := 0; i < tasks; i++ {
		var p []*Step
		first := len(c.Bufs)
		nb := 1 + r.Intn(2)
		var hs []*hint
		for j := 0; j < nb; j++ {
			k := pick(r, buf.All)
			if same {
				k = kk
			}
			var b *BufSpec
			size := 0
			switch x := r.Intn(10); {
			case x == 0:
				// starts empty and grows
				b = &BufSpec{Kind: k.Name}
				if r.Intn(2) == 0 {
					b.Slices = [][]byte{{}}
				}
				size = 1 + r.Intn(20)
				if r.Intn(10) == 0 {
					size = max(1, genCap(r))
				}
				p = append(p, &Step{A: "call", B: len(c.Bufs), Op: &buf.Op{F: "grow", N: int64(size)}})
			case x <= 5:
				b = &BufSpec{Kind: k.Name, Shared: true}
				size = shared
			case x <= 7:
				b = &BufSpec{Kind: k.Name}
				for x := 0; x < 2+r.Intn(2); x++ {
					s := genBytes(r, r.Intn(10))
					size += len(s)
					b.Slices = append(b.Slices, s)
				}
			default:
				size = genCap(r)
				if size > 65 && r.Intn(4) > 0 {
					size %= 65
				}
				b = bufSpec(r, k, size)
			}
			c.Bufs = append(c.Bufs, b)
			hs = append(hs, &hint{k: k, cap: int64(size)})
		}
		o := genOpt{bad: 0.08, next: 0.4, zero: 0.02}
		for j := 0; j < 2+r.Intn(per); j++ {
			b := r.Intn(nb)
			f := few
			if f == nil {
				f = families(hs[b].k)
			}
			hs[b].typ = one.typ
			op := genOp(r, hs[b], pick(r, f), o)
			if op == nil {
				continue
			}
			if op.F == "grow" && op.N > 0 {
				hs[b].cap += op.N
			}
			p = append(p, &Step{A: "call", B: first + b, Op: op})
		}
		c.Progs = append(c.Progs, p)
	}
}

func genReaders(r *rand.Rand, c *Case) {
	c.Mode = "readers"
	k := pick(r, buf.All)
	if c.Twin {
		k = pick(r, []*buf.Kind{buf.V3B, buf.V3M})
	}
	size := genCap(r)
	b := bufSpec(r, k, size)
	h := &hint{k: k, cap: int64(size)}
	pre(r, b, h)
	// leave the buffer in states only reachable through other calls
	m := buf.NewState(b.Slices[0])
	for _, op := range b.Pre {
		var res buf.Res
		m.Apply(k, op, &res, false)
	}
	for n := r.Intn(4); n > 0; n-- {
		op := genOp(r, h, pick(r, families(k)), genOpt{next: 0.4})
		if op == nil || op.F[0] == 'r' && op.F != "reset" && op.F != "refresh" || !m.Succeeds(k, op) {
			continue
		}
		switch op.F {
		case "bytes", "cap", "bcap", "off", "boff", "after", "afterbit":
			continue
		}
		var res buf.Res
		m.Apply(k, op, &res, false)
		b.Pre = append(b.Pre, op)
	}
	h.cap = int64(len(m.Data))
	c.Bufs = []*BufSpec{b}
	fams := append(append([]string{}, readsF...), readsF...)
	fams = append(fams, "read", "read")
	fams = append(fams, getters...)
	if r.Intn(2) == 0 {
		fams = subset(r, fams, 3)
	}
	o := genOpt{zero: 0.02, wild: 0.1, bad: 0.1}
	if k.Mini {
		o.bad = 0
	}
	fams, more := focus(r, c, fams, h)
	tasks, per, _ := shape(r, 2+r.Intn(3), 4, 0)
	per *= more
	for i := 0; i < tasks; i++ {
		var p []*Step
		for j := 0; j < 1+r.Intn(per); j++ {
			op := genOp(r, h, pick(r, fams), o)
			if op == nil || !m.Defined(k, op) {
				continue
			}
			p = append(p, &Step{A: "call", Op: op})
		}
		c.Progs = append(c.Progs, p)
	}
}

package rt

import (
	"unsafe"
)

// MemFault is the panic value of an injected memory fault. It has the shape of
// the error the Go runtime raises for a fault on mapped memory when
// debug.SetPanicOnFault is on.
type MemFault struct{ addr uintptr }

func (MemFault) Error() string {
	return "runtime error: invalid memory address or nil pointer dereference (injected fault)"
}
func (MemFault) RuntimeError()   {}
func (m MemFault) Addr() uintptr { return m.addr }

var sink unsafe.Pointer

/* shadow memory */

type entry struct {
	mask  uint8
	task  uint8
	write bool
	clk   uint32
	site  int32
}

type shadow struct {
	m     map[uintptr]int32
	cells [][]entry
}

func (h *shadow) reset() {
	h.m = nil
	h.cells = nil
}

func (s *Sim) access(t *Task, addr, size uintptr, write bool, site int32) {
	if s.RecordWrites && write {
		s.Writes = append(s.Writes, site)
	}
	if !s.DetectRaces || size == 0 {
		return
	}
	h := &s.shadow
	if h.m == nil {
		h.m = make(map[uintptr]int32, 64)
	}
	end := addr + size
	for w := addr >> 3; w <= (end-1)>>3; w++ {
		mask := uint8(0xff)
		if w == addr>>3 {
			mask &= 0xff << (addr & 7)
		}
		if w == (end-1)>>3 {
			mask &= 0xff >> (7 - (end-1)&7)
		}
		idx, ok := h.m[w]
		if !ok {
			idx = int32(len(h.cells))
			h.cells = append(h.cells, nil)
			h.m[w] = idx
		}
		c := h.cells[idx]
		k := 0
		for i := range c {
			e := c[i]
			if e.mask&mask != 0 && int(e.task) != t.slot && (write || e.write) && e.clk > t.vc[e.task] {
				if len(s.Races) < 8 {
					s.Races = append(s.Races, Race{SiteA: e.site, SiteB: site, WriteA: e.write, WriteB: write, TaskA: int(e.task), TaskB: t.ID})
				}
			}
			// drop entries this access supersedes
			if e.mask&^mask == 0 && (int(e.task) == t.slot && (write || !e.write) || write && e.clk <= t.vc[e.task]) {
				continue
			}
			c[k] = e
			k++
		}
		h.cells[idx] = append(c[:k], entry{mask, uint8(t.slot), write, t.vc[t.slot], site})
	}
}

// PendingFault reports whether the running task still has a planned fault.
func (t *Task) elem(n int, addr uintptr, site int32) int {
	// returns the number of element accesses that may proceed; < n means fault
	if t.FaultAt > 0 {
		if t.Elems+n >= t.FaultAt {
			ok := t.FaultAt - t.Elems - 1
			t.Elems = t.FaultAt
			t.FaultAt = 0
			t.FaultFired = true
			t.FaultSite = site
			return ok
		}
	}
	t.Elems += n
	return n
}

func hook(p unsafe.Pointer, size uintptr, write, elem bool, site int32) {
	t := cur
	if t == nil || t.sim.aborting {
		return
	}
	if (elem || t.OutLo <= uintptr(p) && uintptr(p) < t.OutHi) && t.elem(1, uintptr(p), site) < 1 {
		panic(MemFault{uintptr(p)})
	}
	pointSite(site)
	t.sim.access(t, uintptr(p), size, write, site)
}

func pointSite(site int32) {
	cur.sim.site = site
	if cur.sim.Trace != nil {
		Point(SiteName(site))
		return
	}
	Point("")
}

// Ld loads shared memory.
func Ld[T any](p *T, site int32) T {
	sink = unsafe.Pointer(p)
	hook(unsafe.Pointer(p), unsafe.Sizeof(*p), false, false, site)
	return *p
}

// LdE loads a slice element (or memory behind an unsafe pointer).
func LdE[T any](p *T, site int32) T {
	sink = unsafe.Pointer(p)
	hook(unsafe.Pointer(p), unsafe.Sizeof(*p), false, true, site)
	return *p
}

// Ref is a shared location about to be stored to.
type Ref[T any] struct {
	p    *T
	site int32
	elem bool
}

// At names a shared location.
func At[T any](p *T, site int32) Ref[T] {
	sink = unsafe.Pointer(p)
	return Ref[T]{p, site, false}
}

// AtE names a shared slice element.
func AtE[T any](p *T, site int32) Ref[T] {
	sink = unsafe.Pointer(p)
	return Ref[T]{p, site, true}
}

// Get loads.
func (r Ref[T]) Get() T {
	hook(unsafe.Pointer(r.p), unsafe.Sizeof(*r.p), false, r.elem, r.site)
	return *r.p
}

// Zero is the zero value of the location's type.
func (r Ref[T]) Zero() (z T) { return }

// Set stores.
func (r Ref[T]) Set(v T) {
	hook(unsafe.Pointer(r.p), unsafe.Sizeof(*r.p), true, r.elem, r.site)
	*r.p = v
}

// W announces a store made by a plain (tuple) assignment that follows.
func W[T any](p *T, site int32) {
	sink = unsafe.Pointer(p)
	hook(unsafe.Pointer(p), unsafe.Sizeof(*p), true, false, site)
}

func base[E any](s []E) unsafe.Pointer {
	if cap(s) == 0 {
		return nil
	}
	return unsafe.Pointer(unsafe.SliceData(s))
}

// rng performs the hook work of a bulk access of n elements of size es at p.
// It returns how many elements may proceed before an injected fault.
func rng(site int32, n int) int {
	t := cur
	if t == nil || t.sim.aborting {
		return n
	}
	pointSite(site)
	return t.elem(n, 0, site)
}

func acc(p unsafe.Pointer, bytes uintptr, write bool, site int32) {
	t := cur
	if t == nil || t.sim.aborting || p == nil {
		return
	}
	t.sim.access(t, uintptr(p), bytes, write, site)
}

// Copy is the copy builtin.
func Copy[D ~[]E, S ~[]E, E any](site int32, dst D, src S) int {
	n := min(len(dst), len(src))
	if n == 0 {
		return 0
	}
	var e E
	es := unsafe.Sizeof(e)
	db, sb := base([]E(dst)), base([]E(src))
	sink, sink = db, sb
	ok := rng(site, n)
	acc(sb, es*uintptr(n), false, site)
	acc(db, es*uintptr(n), true, site)
	if ok < n {
		if n&1 == 0 { // the direction a partial copy takes is unspecified
			copy(dst[:ok], src[:ok])
		} else {
			copy(dst[n-ok:n], src[n-ok:n])
		}
		panic(MemFault{uintptr(db)})
	}
	return copy(dst, src)
}

// CopyStr is copy from a string.
func CopyStr[D ~[]byte](site int32, dst D, src string) int {
	return Copy(site, []byte(dst), []byte(src))
}

// Append is the append builtin.
func Append[S ~[]E, E any](site int32, s S, e ...E) S {
	if len(e) == 0 {
		return append(s, e...)
	}
	var z E
	es := unsafe.Sizeof(z)
	sb, eb := base([]E(s)), base(e)
	sink, sink = sb, eb
	inPlace := cap(s)-len(s) >= len(e)
	moved := 0
	if !inPlace {
		moved = len(s)
	}
	ok := rng(site, len(e)+moved)
	acc(eb, es*uintptr(len(e)), false, site)
	if inPlace {
		acc(unsafe.Add(sb, es*uintptr(len(s))), es*uintptr(len(e)), true, site)
		if ok < len(e) {
			copy(s[len(s):len(s)+ok], e[:ok])
			panic(MemFault{uintptr(sb)})
		}
	} else {
		acc(sb, es*uintptr(len(s)), false, site)
		if ok < len(e)+moved {
			panic(MemFault{uintptr(sb)})
		}
	}
	r := append(s, e...)
	sink = base([]E(r))
	return r
}

// AppendStr is append of a string.
func AppendStr[S ~[]byte](site int32, s S, e string) S {
	return Append(site, s, []byte(e)...)
}

// Clear is the clear builtin on slices.
func Clear[S ~[]E, E any](site int32, s S) {
	if len(s) == 0 {
		return
	}
	var z E
	sink = base([]E(s))
	ok := rng(site, len(s))
	acc(base([]E(s)), unsafe.Sizeof(z)*uintptr(len(s)), true, site)
	if ok < len(s) {
		clear(s[:ok])
		panic(MemFault{uintptr(base([]E(s)))})
	}
	clear(s)
}

// Use marks a slice that is handed to code outside of the instrumented
// packages. n >= 0: exactly n leading bytes are accessed (written if write);
// n < 0: unknown extent, a scheduling and fault point only.
func Use[S ~[]E, E any](site int32, n int, write bool, s S) S {
	t := cur
	if t == nil || t.sim.aborting || len(s) == 0 {
		return s
	}
	sink = base([]E(s))
	if t.elem(1, 0, site) < 1 {
		panic(MemFault{uintptr(base([]E(s)))})
	}
	pointSite(site)
	var e E
	if n == -2 { // all of it
		n = len(s) * int(unsafe.Sizeof(e))
	}
	if n > 0 && n <= len(s)*int(unsafe.Sizeof(e)) {
		acc(base([]E(s)), uintptr(n), write, site)
	}
	return s
}

// Look is a read by the caller of what it owns: neither a scheduling nor a fault point.
func Look[S ~[]E, E any](site int32, s S) {
	if t := cur; t == nil || t.sim.aborting || len(s) == 0 {
		return
	}
	var e E
	acc(base([]E(s)), uintptr(len(s))*unsafe.Sizeof(e), false, site)
}

// KeyOrder, when set, permutes map iteration; by default the order is the sorted one.
var KeyOrder func(n int) []int

// UseAll marks a slice that is read in full by code outside of the instrumented packages.
func UseAll[S ~[]E, E any](site int32, write bool, s S) S {
	var e E
	return Use(site, len(s)*int(unsafe.Sizeof(e)), write, s)
}

// Package simsync is the sync package under the simulator: every operation is
// a scheduling decision of the simulator and an edge of its happens-before
// relation. Outside of a simulated task it behaves like uncontended sync.
package simsync

import (
	"crunchsim/rt"
)

// Locker mirrors sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex mirrors sync.Mutex.
type Mutex struct {
	held  bool
	epoch int
	gen   int
	hb    rt.HB
	owner *rt.Task
}

var mutexGen int

func (m *Mutex) fresh() {
	if m.epoch != rt.Epoch {
		m.epoch, m.held, m.owner = rt.Epoch, false, nil
	}
	if m.gen == 0 {
		mutexGen++
		m.gen = mutexGen
	}
}

// Held reports whether the mutex is locked (harness only).
func (m *Mutex) Held() bool { m.fresh(); return m.held }

// Owner is the task that locked the mutex (harness only).
func (m *Mutex) Owner() *rt.Task { return m.owner }

// Lock mirrors sync.Mutex.Lock.
func (m *Mutex) Lock() {
	rt.Point("Lock")
	m.fresh()
	// a waiter whose mutex is overwritten in the meantime sleeps on: the state
	// that counted it is gone
	gen := m.gen
	rt.WaitObj("mutex", m, func() bool { return !m.held && m.gen == gen })
	if rt.Aborting() {
		return
	}
	m.held, m.owner = true, rt.Cur()
	m.hb.Acquire()
	rt.LockEvent(m, true)
}

// TryLock mirrors sync.Mutex.TryLock.
func (m *Mutex) TryLock() bool {
	rt.Point("TryLock")
	if rt.Aborting() {
		return true
	}
	m.fresh()
	if m.held {
		return false
	}
	m.held, m.owner = true, rt.Cur()
	m.hb.Acquire()
	rt.LockEvent(m, true)
	return true
}

// Unlock mirrors sync.Mutex.Unlock.
func (m *Mutex) Unlock() {
	rt.Point("Unlock")
	if rt.Aborting() {
		return
	}
	m.fresh()
	if !m.held {
		rt.Die("sync: unlock of unlocked mutex")
		return
	}
	m.hb.Release()
	m.held, m.owner = false, nil
	rt.LockEvent(m, false)
}

// RWMutex mirrors sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	w       bool
	readers int
	waiting int // writers that announced themselves
	epoch   int
	wHB     rt.HB
	rHB     rt.HB
}

func (m *RWMutex) fresh() {
	if m.epoch != rt.Epoch {
		m.epoch, m.w, m.readers, m.waiting = rt.Epoch, false, 0, 0
	}
}

// Held reports whether the mutex is held in any mode (harness only).
func (m *RWMutex) Held() bool { m.fresh(); return m.w || m.readers > 0 }

// Lock mirrors sync.RWMutex.Lock.
func (m *RWMutex) Lock() {
	rt.Point("Lock")
	if rt.Aborting() {
		return
	}
	m.fresh()
	m.waiting++
	rt.WaitObj("rwmutex", m, func() bool { return !m.w && m.readers == 0 })
	if rt.Aborting() {
		return
	}
	m.waiting--
	m.w = true
	m.wHB.Acquire()
	m.rHB.Acquire()
	rt.LockEvent(m, true)
}

// TryLock mirrors sync.RWMutex.TryLock.
func (m *RWMutex) TryLock() bool {
	rt.Point("TryLock")
	if rt.Aborting() {
		return true
	}
	m.fresh()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	m.wHB.Acquire()
	m.rHB.Acquire()
	rt.LockEvent(m, true)
	return true
}

// Unlock mirrors sync.RWMutex.Unlock.
func (m *RWMutex) Unlock() {
	rt.Point("Unlock")
	if rt.Aborting() {
		return
	}
	m.fresh()
	if !m.w {
		rt.Die("sync: Unlock of unlocked RWMutex")
		return
	}
	m.wHB.Release()
	m.w = false
	rt.LockEvent(m, false)
}

// RLock mirrors sync.RWMutex.RLock.
func (m *RWMutex) RLock() {
	rt.Point("RLock")
	rt.WaitObj("rwmutex", m, func() bool { m.fresh(); return !m.w && m.waiting == 0 })
	if rt.Aborting() {
		return
	}
	m.readers++
	m.wHB.Acquire()
	rt.LockEvent(m, true)
}

// TryRLock mirrors sync.RWMutex.TryRLock.
func (m *RWMutex) TryRLock() bool {
	rt.Point("TryRLock")
	if rt.Aborting() {
		return true
	}
	m.fresh()
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	m.wHB.Acquire()
	rt.LockEvent(m, true)
	return true
}

// RUnlock mirrors sync.RWMutex.RUnlock.
func (m *RWMutex) RUnlock() {
	rt.Point("RUnlock")
	if rt.Aborting() {
		return
	}
	m.fresh()
	if m.readers == 0 {
		rt.Die("sync: RUnlock of unlocked RWMutex")
		return
	}
	m.rHB.Release()
	m.readers--
	rt.LockEvent(m, false)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker mirrors sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once mirrors sync.Once.
type Once struct {
	m    Mutex
	done bool
	hb   rt.HB
}

// Do mirrors sync.Once.Do.
func (o *Once) Do(f func()) {
	rt.Point("Once")
	if o.done {
		o.hb.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; o.hb.Release() }()
		f()
	}
}

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue mirrors sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues mirrors sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// WaitGroup mirrors sync.WaitGroup.
type WaitGroup struct {
	n  int
	hb rt.HB
}

// Add mirrors sync.WaitGroup.Add.
func (w *WaitGroup) Add(d int) {
	rt.Point("WaitGroup.Add")
	if rt.Aborting() {
		return
	}
	if d < 0 {
		w.hb.Release()
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done mirrors sync.WaitGroup.Done.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait mirrors sync.WaitGroup.Wait.
func (w *WaitGroup) Wait() {
	rt.Point("WaitGroup.Wait")
	rt.WaitObj("waitgroup", w, func() bool { return w.n == 0 })
	w.hb.Acquire()
}

// Go mirrors sync.WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

// Cond mirrors sync.Cond.
type Cond struct {
	L   Locker
	seq int
	ok  int
	hb  rt.HB
}

// NewCond mirrors sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait mirrors sync.Cond.Wait.
func (c *Cond) Wait() {
	c.seq++
	ticket := c.seq
	c.L.Unlock()
	rt.WaitObj("cond", c, func() bool { return ticket <= c.ok })
	c.hb.Acquire()
	c.L.Lock()
}

// Signal mirrors sync.Cond.Signal.
func (c *Cond) Signal() {
	rt.Point("Signal")
	c.hb.Release()
	if c.ok < c.seq {
		c.ok++
	}
}

// Broadcast mirrors sync.Cond.Broadcast.
func (c *Cond) Broadcast() {
	rt.Point("Broadcast")
	c.hb.Release()
	c.ok = c.seq
}

// Pool mirrors sync.Pool; it hands objects back last in, first out, which is
// the most revealing legal behaviour for wrongly shared objects.
type Pool struct {
	New   func() any
	items []any
	hb    rt.HB
	run   *rt.Sim
}

func (p *Pool) fresh() {
	// a package-level pool must not carry objects from one simulated run to the next
	if p.run != rt.S {
		p.run, p.items = rt.S, nil
		p.hb = rt.HB{}
	}
}

// Get mirrors sync.Pool.Get.
func (p *Pool) Get() any {
	rt.Point("Pool.Get")
	p.fresh()
	p.hb.Acquire()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put mirrors sync.Pool.Put.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	rt.Point("Pool.Put")
	p.fresh()
	p.hb.Release()
	p.items = append(p.items, x)
}

// Map mirrors sync.Map.
type Map struct {
	keys []any
	m    map[any]any
	hb   rt.HB
}

func (m *Map) enter() {
	rt.Point("sync.Map")
	m.hb.Acquire()
	m.hb.Release()
	if m.m == nil {
		m.m = map[any]any{}
	}
}

// Load mirrors sync.Map.Load.
func (m *Map) Load(k any) (any, bool) { m.enter(); v, ok := m.m[k]; return v, ok }

// Store mirrors sync.Map.Store.
func (m *Map) Store(k, v any) {
	m.enter()
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

// LoadOrStore mirrors sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.enter()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}

// LoadAndDelete mirrors sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.enter()
	v, ok := m.m[k]
	if ok {
		m.drop(k)
	}
	return v, ok
}

// Swap mirrors sync.Map.Swap.
func (m *Map) Swap(k, v any) (any, bool) {
	m.enter()
	x, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return x, ok
}

// CompareAndSwap mirrors sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.enter()
	if x, ok := m.m[k]; !ok || x != o {
		return false
	}
	m.m[k] = n
	return true
}

// CompareAndDelete mirrors sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(k, o any) bool {
	m.enter()
	x, ok := m.m[k]
	if ok = ok && x == o; ok {
		m.drop(k)
	}
	return ok
}

// Clear mirrors sync.Map.Clear.
func (m *Map) Clear() {
	m.enter()
	m.m, m.keys = nil, nil
}

func (m *Map) drop(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}

// Delete mirrors sync.Map.Delete.
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// Range mirrors sync.Map.Range.
func (m *Map) Range(f func(k, v any) bool) {
	m.enter()
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

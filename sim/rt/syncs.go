package rt

import "unsafe"

// Epoch numbers simulations; synchronisation objects that outlive one
// simulation (package-level ones) start every simulation unlocked.
var Epoch int

// HB is one synchronisation object's happens-before clock.
type HB struct {
	vc    VC
	epoch int
}

func (h *HB) fresh() {
	if h.epoch != Epoch {
		h.epoch = Epoch
		h.vc = VC{}
	}
}

// Acquire makes everything released to h happen before what follows.
func (h *HB) Acquire() {
	if cur == nil || cur.sim.aborting {
		return
	}
	h.fresh()
	cur.vc.Join(&h.vc)
}

// Release publishes what the running task did so far to later acquirers.
func (h *HB) Release() {
	if cur == nil || cur.sim.aborting {
		return
	}
	h.fresh()
	h.vc.Join(&cur.vc)
	cur.vc[cur.slot]++
}

// Aborting reports whether the simulation is unwinding its tasks.
func Aborting() bool { return S != nil && S.aborting }

// WaitObj blocks until ready.
func WaitObj(kind string, obj any, ready func() bool) {
	if Aborting() {
		return
	}
	Wait(kind, ready)
}

// LockEvent tells the simulator about an acquisition or a release.
func LockEvent(obj any, acquired bool) {
	t := cur
	if t == nil || t.sim.aborting {
		return
	}
	if acquired {
		t.Held++
		t.Acquired++
	} else {
		t.Held--
		t.UnlockSwitches = t.SwitchedOut
		t.Released++
	}
	if t.sim.OnLock != nil {
		t.sim.OnLock(t, obj, acquired)
	}
}

// AtomicPoint is one atomic operation on p.
func AtomicPoint(p unsafe.Pointer, size uintptr, write bool) {
	t := cur
	if t == nil || t.sim.aborting {
		return
	}
	sink = p
	Point("atomic")
	s := t.sim
	if s.atomics == nil {
		s.atomics = map[uintptr]*HB{}
	}
	h := s.atomics[uintptr(p)]
	if h == nil {
		h = &HB{}
		s.atomics[uintptr(p)] = h
	}
	h.Acquire()
	s.access(t, uintptr(p), size, write, -1)
	h.Release()
	t.AtomicOps++
	t.UnlockSwitches = t.SwitchedOut
}

// Yield is runtime.Gosched under the simulator.
func Yield(...any) {
	if cur != nil {
		cur.stall = 3
	}
	Point("yield")
}

// Sleep is time.Sleep under the simulator.
func Sleep(ns int64) {
	Yield()
	t := cur
	if t == nil || ns <= 0 || t.sim.aborting {
		return
	}
	s := t.sim
	t.wakeAt = s.Clock() + ns
	defer func() { t.wakeAt = 0 }()
	Wait("the clock", func() bool { return s.Clock() >= t.wakeAt })
}

// Now is the simulated time, in nanoseconds since the simulation began.
func Now() int64 {
	if S == nil {
		return 0
	}
	return S.Clock()
}

// Rand64 is the simulation's source of randomness for the code under test.
func Rand64() uint64 {
	if S == nil {
		return 0x9e3779b97f4a7c15
	}
	S.Seed += 0x9e3779b97f4a7c15
	z := S.Seed
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// Procs is runtime.NumCPU and runtime.GOMAXPROCS: the machine has one to eight
// processors, it depends on the case.
func Procs(...int) int {
	if S == nil {
		return 8
	}
	if S.procs == 0 {
		S.procs = []int{1, 2, 4, 8}[S.Seed>>11%4]
	}
	return S.procs
}

// Goroutines is runtime.NumGoroutine.
func Goroutines() int {
	n := 1
	if S != nil {
		n = 0
		for _, t := range S.Tasks {
			if !t.done {
				n++
			}
		}
	}
	return max(n, 1)
}

// NsFor is how much simulated time a scheduling point takes in the case of a
// seed: from much faster to much slower than the timeouts of the code under test.
func NsFor(seed uint64) int64 {
	return []int64{1000, 1000, 50, 20_000, 1_000_000}[seed>>7%5]
}

// Package rt is the simulator core: a deterministic, seeded, single-threaded
// scheduler of coroutine tasks, the hooks the instrumented code calls at every
// shared memory access, a vector-clock race detector and memory-fault injection.
//
// Exactly one simulation runs at a time in a process. Everything that happens
// in it is a function of the case it is given: programs, schedule policy (or
// explicit schedule) and faults.
package rt

import (
	"fmt"
	"iter"
	"math/rand"
	"strings"
	"unsafe"
)

// MaxTasks is the number of tasks vector clocks have room for; a simulation with
// more tasks goes on without race detection.
const MaxTasks = 16

// taskLimit ends simulations that start tasks without end.
const taskLimit = 20_000

// VC is a vector clock.
type VC [MaxTasks]uint32

// Join merges o into v.
func (v *VC) Join(o *VC) {
	for i := range v {
		if o[i] > v[i] {
			v[i] = o[i]
		}
	}
}

// Abort unwinds a task when the simulation is over (deadlock, step limit).
type Abort struct{}

// Killed unwinds a task that simulates a process that was killed.
type Killed struct{}

// Task is one simulated thread of control.
type Task struct {
	ID   int
	Name string
	// FaultAt makes the FaultAt-th element access from now fault (0: none).
	FaultAt int
	// Elems counts element accesses since it was last reset.
	Elems int
	// FaultFired is set when the planned fault struck.
	FaultFired bool
	FaultSite  int32
	// OutLo and OutHi delimit the output variable of the call in progress, memory
	// of the caller that a fault can strike as well.
	OutLo, OutHi uintptr
	// SwitchedOut counts how often another task ran while this one was live.
	SwitchedOut int
	// Held is the number of simulated locks the task holds; Acquired and Released
	// count lock operations, AtomicOps atomic ones.
	Held, Acquired, Released, AtomicOps int
	// UnlockSwitches is SwitchedOut as of the last release or atomic operation.
	UnlockSwitches int
	// Data is free for the harness.
	Data any
	// Gone, when set, says that what the task belongs to (a process) has ended:
	// the task unwinds at its next scheduling point. Started tasks inherit it.
	Gone func() bool
	// Crash takes a panic that leaves a task started by a go statement. Tasks
	// inherit it; without it such a panic ends the simulation.
	Crash func(r any)

	sim      *Sim
	slot     int
	vc       VC
	next     func() (struct{}, bool)
	stop     func()
	yield    func(struct{}) bool
	done     bool
	finished bool        // ran to its end (as opposed to being unwound)
	waiting  func() bool // nil: runnable; otherwise runnable when it returns true
	waitOn   string
	stall    int   // steps during which the scheduler avoids this task
	daemon   bool  // started by the code under test; the run ends without waiting for it
	wakeAt   int64 // when a sleeping task wakes
	kill     bool
	mapAt    unsafe.Pointer // the map the task is about to use
	mapWrite bool
	mapSite  int32
}

// Done reports whether the task has finished.
func (t *Task) Done() bool { return t.done }

// Policy decides which runnable task goes next.
type Policy interface {
	// Pick is called at every scheduling point. cur is the running task, or nil
	// when it has just blocked or finished. run is non-empty and ordered by id.
	Pick(s *Sim, cur *Task, run []*Task) *Task
}

// Switch is one recorded scheduling decision: before step Step runs, control
// moves to task Task.
type Switch struct {
	Step int `json:"step"`
	Task int `json:"task"`
}

// StallAt says that from step Step on task Task is not scheduled for N steps
// (unless nothing else can run).
type StallAt struct {
	Step int `json:"step"`
	Task int `json:"task"`
	N    int `json:"n"`
}

// Race is one pair of conflicting, unordered accesses.
type Race struct {
	SiteA, SiteB   int32
	WriteA, WriteB bool
	TaskA, TaskB   int
}

func (r Race) String() string {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	return fmt.Sprintf("%s at %s by task %d / %s at %s by task %d", k(r.WriteA), SiteName(r.SiteA), r.TaskA, k(r.WriteB), SiteName(r.SiteB), r.TaskB)
}

// Sim is one simulation.
type Sim struct {
	Tasks    []*Task
	Step     int
	MaxSteps int
	OnPoint  func() // looks at memory at every scheduling point
	Policy   Policy
	// Races holds the first races found, when race detection is on.
	DetectRaces bool
	Races       []Race
	// RecordWrites notes every write access by site (used by read-only checks).
	RecordWrites bool
	Writes       []int32
	// Fatal is set when something happened that would crash the real process
	// without a chance to recover (unlock of an unlocked mutex).
	Fatal string
	// Outcome flags
	Deadlock  bool
	Blocked   []string
	StepLimit bool
	Stopped   bool
	// Schedule as taken.
	Switches []Switch
	// NsPerStep is how much simulated time a scheduling point takes. When
	// everybody sleeps or waits, the clock jumps to the next time to wake.
	NsPerStep int64
	jumped    int64
	// Seed feeds the simulated math/rand and crypto/rand.
	Seed  uint64
	procs int
	// IdleTicks counts loop iterations without scheduling points.
	ticks int
	// MaxTicks is the most of them in a row.
	MaxTicks int
	fair     bool

	nextTask *Task
	current  *Task
	aborting bool
	runBuf   []*Task
	shadow   shadow
	// Trace, when set, is called at every scheduling point (replay output).
	Trace func(format string, args ...any)
	// Stalls is the number of scheduling points at which a stalled task was held back.
	StallHits int
	// EventSeq numbers history events.
	EventSeq int
	// Stalls holds tasks back from the given steps on.
	Stalls []StallAt
	// OnLock observes lock operations.
	OnLock    func(t *Task, obj any, acquired bool)
	schedHash uint64
	// Preempts are the (site, next task) pairs of the preemptions taken.
	Preempts []uint64
	site     int32
	atomics  map[uintptr]*HB
}

var (
	cur *Task // the running task, nil outside of tasks
	// TickLimit bounds the loop iterations and calls between two scheduling points.
	TickLimit = 4_000_000
	// S is the active simulation.
	S *Sim
)

// Cur returns the running task, or nil.
func Cur() *Task { return cur }

// NewSim prepares a simulation.
func NewSim(p Policy, maxSteps int) *Sim {
	return &Sim{Policy: p, MaxSteps: maxSteps, schedHash: 14695981039346656037, NsPerStep: 1000}
}

// Clock is the simulated time in nanoseconds since the start.
func (s *Sim) Clock() int64 { return int64(s.Step)*s.NsPerStep + s.jumped }

// SchedHash identifies the interleaving taken: the sequence of (task, step) switches.
func (s *Sim) SchedHash() uint64 { return s.schedHash }

// Event returns the next history event number.
func (s *Sim) Event() int { s.EventSeq++; return s.EventSeq }

// Spawn adds a task before Run.
func (s *Sim) Spawn(name string, f func()) *Task {
	t := s.newTask(name)
	t.vc[t.slot] = 1
	s.start(t, f)
	return t
}

func (s *Sim) newTask(name string) *Task {
	t := &Task{ID: len(s.Tasks), Name: name, sim: s}
	t.slot = min(t.ID, MaxTasks-1)
	if t.ID >= MaxTasks {
		s.DetectRaces = false
	}
	return t
}

// Go starts a task from inside a task (go statements of the code under test).
func Go(f func()) {
	if cur == nil {
		f()
		return
	}
	s := cur.sim
	if s.aborting {
		return
	}
	if len(s.Tasks) >= taskLimit {
		s.StepLimit = true
		s.suspend(cur)
	}
	t := s.newTask("go")
	t.Data, t.Gone, t.Crash, t.daemon = cur.Data, cur.Gone, cur.Crash, true
	t.vc = cur.vc
	t.vc[t.slot]++
	cur.vc[cur.slot]++
	s.start(t, func() {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case Abort, Killed:
				panic(r)
			default:
				if t.Crash != nil {
					t.Crash(r)
				} else if !s.aborting {
					s.Fatal = fmt.Sprintf("panic in a goroutine: %v", r)
				}
			}
		}()
		f()
	})
	Point("go")
}

func (s *Sim) start(t *Task, f func()) {
	s.Tasks = append(s.Tasks, t)
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case Abort, Killed:
				default:
					panic(r)
				}
			}
		}()
		if s.aborting {
			return
		}
		f()
	})
}

func (t *Task) blocked() bool {
	return t.waiting != nil && !t.waiting() && (t.Gone == nil || !t.Gone())
}

func (s *Sim) runnable() []*Task {
	r := s.someRunnable()
	if len(r) > 0 {
		return r
	}
	// time passes until somebody wakes
	next := int64(0)
	for _, t := range s.Tasks {
		if !t.done && t.wakeAt > 0 && (next == 0 || t.wakeAt < next) {
			next = t.wakeAt
		}
	}
	if d := next - s.Clock(); next > 0 && d > 0 {
		s.jumped += d
		return s.someRunnable()
	}
	return r
}

func (s *Sim) someRunnable() []*Task {
	r := s.runBuf[:0]
	stalled := 0
	for _, t := range s.Tasks {
		if t.done || t.blocked() {
			continue
		}
		if t.stall > 0 {
			stalled++
			continue
		}
		r = append(r, t)
	}
	if len(r) == 0 && stalled > 0 {
		for _, t := range s.Tasks {
			if !t.done && !t.blocked() {
				r = append(r, t)
			}
		}
	} else if stalled > 0 {
		s.StallHits += stalled
	}
	for _, t := range s.Tasks {
		if t.stall > 0 {
			t.stall--
		}
	}
	s.runBuf = r
	return r
}

// Stall holds a task back for n scheduling points (unless nothing else can run).
func (t *Task) Stall(n int) { t.stall = n }

// Kill makes the task unwind with Killed at its next scheduling point.
func (t *Task) Kill() { t.kill = true }

// Run executes the simulation until every task finished, deadlock, step limit
// or a fatal condition.
func (s *Sim) Run() {
	S = s
	Epoch++
	s.shadow.reset()
	defer func() { S = nil; cur = nil }()
	for {
		if s.Fatal != "" || s.StepLimit || s.Stopped {
			break
		}
		if s.nextTask == nil {
			if s.onlyDaemons() {
				break
			}
			r := s.runnable()
			if len(r) == 0 {
				live := false
				for _, t := range s.Tasks {
					if !t.done && !t.daemon {
						live = true
						s.Blocked = append(s.Blocked, fmt.Sprintf("task %d (%s) waits for %s", t.ID, t.Name, t.waitOn))
					}
				}
				s.Deadlock = live
				break
			}
			s.setNext(s.Policy.Pick(s, nil, r))
		}
		t := s.nextTask
		s.nextTask = nil
		s.current = t
		cur = t
		_, ok := t.next()
		cur = nil
		if !ok {
			t.done, t.finished = true, true
			s.Step++
		}
	}
	// unwind whatever is left so that no coroutine leaks
	s.aborting = true
	for _, t := range s.Tasks {
		if !t.done {
			cur = t
			t.stop()
			cur = nil
			t.done = true
		}
	}
}

// onlyDaemons reports whether nothing is left but tasks that the code under
// test started and nobody waits for.
func (s *Sim) onlyDaemons() bool {
	some := false
	for _, t := range s.Tasks {
		if t.done {
			continue
		}
		if !t.daemon || t.Gone != nil && t.Gone() {
			return false
		}
		some = true
	}
	return some
}

func (s *Sim) setNext(t *Task) {
	if t != s.current {
		s.Switches = append(s.Switches, Switch{s.Step, t.ID})
		s.schedHash = (s.schedHash ^ uint64(s.Step)) * 1099511628211
		s.schedHash = (s.schedHash ^ uint64(t.ID+1)) * 1099511628211
	}
	s.nextTask = t
}

// Point is a scheduling point: the policy may let other tasks run before the
// caller continues.
func Point(what string) {
	t := cur
	if t == nil {
		return
	}
	s := t.sim
	if s.aborting {
		return
	}
	if t.kill || t.Gone != nil && t.Gone() {
		t.kill = false
		panic(Killed{})
	}
	s.Step++
	s.MaxTicks, s.ticks = max(s.MaxTicks, s.ticks), 0
	if !s.fair && s.Step > s.MaxSteps/2 {
		// progress is owed to fair schedules only: from here on, be fair
		s.fair = true
		s.Policy = &RandomWalk{R: rand.New(rand.NewSource(1)), P: 0.25}
	}
	if s.Step > s.MaxSteps {
		s.StepLimit = true
		s.suspend(t)
	}
	if s.OnPoint != nil {
		s.OnPoint()
	}
	for _, st := range s.Stalls {
		if st.Step == s.Step && st.Task < len(s.Tasks) {
			s.Tasks[st.Task].stall = st.N
		}
	}
	r := s.runnable()
	n := t
	if len(r) > 1 || r[0] != t {
		n = s.Policy.Pick(s, t, r)
	}
	if s.Trace != nil {
		s.Trace("step %d task %d at %s", s.Step, t.ID, what)
	}
	site := s.site
	s.site = 0
	if n != t {
		if site == 0 {
			for i := 0; i < len(what); i++ {
				site = site*31 + int32(what[i])
			}
		}
		s.Preempts = append(s.Preempts, uint64(uint32(site))<<8|uint64(n.ID))
		s.setNext(n)
		s.suspend(t)
		if t.kill || t.Gone != nil && t.Gone() {
			t.kill = false
			panic(Killed{})
		}
	}
}

func (s *Sim) suspend(t *Task) {
	t.SwitchedOut++
	if !t.yield(struct{}{}) || s.aborting {
		panic(Abort{})
	}
}

// Wait blocks the running task until ready() is true. ready must be a function
// of simulation state only.
func Wait(what string, ready func() bool) {
	t := cur
	if t == nil {
		if !ready() {
			panic("rt: blocking outside of a task on " + what)
		}
		return
	}
	s := t.sim
	if s.aborting {
		return
	}
	if ready() {
		return
	}
	t.waiting, t.waitOn = ready, what
	s.Step++
	if s.Step > s.MaxSteps {
		s.StepLimit = true
	}
	if s.Trace != nil {
		s.Trace("step %d task %d blocks on %s", s.Step, t.ID, what)
	}
	for {
		s.nextTask = nil
		s.suspend(t)
		if t.Gone != nil && t.Gone() {
			t.waiting = nil
			panic(Killed{})
		}
		if ready() {
			break
		}
	}
	t.waiting, t.waitOn = nil, ""
}

// Quiet runs f without hooks: nothing in it is a scheduling point or recorded.
func Quiet(f func()) {
	old := cur
	cur = nil
	defer func() { cur = old }()
	f()
}

// AwaitOthers blocks until every other task has finished and orders what they
// did before what follows.
func AwaitOthers() {
	t := cur
	Wait("quiescence", func() bool {
		for _, o := range t.sim.Tasks {
			if o != t && !o.done && !(o.daemon && o.blocked()) {
				return false
			}
		}
		return true
	})
	for _, o := range t.sim.Tasks {
		t.vc.Join(&o.vc)
	}
}

// OnlyWaiter reports whether t is the only task left when the run ended.
func (s *Sim) OnlyWaiter(t *Task) bool {
	for _, o := range s.Tasks {
		if o != t && !o.finished && !o.daemon {
			return false
		}
	}
	return true
}

// Stop ends the simulation early (the harness found a violation).
func Stop() {
	t := cur
	t.sim.Stopped = true
	t.sim.suspend(t)
}

// Tick is called at loop heads and function entries of the code under test; it
// bounds computations that never reach a scheduling point.
func Tick() {
	t := cur
	if t == nil {
		return
	}
	s := t.sim
	if s.aborting {
		// a loop that does not end must not keep the unwinding from finishing
		s.ticks++
		if s.ticks > 1_000_000 {
			panic(Abort{})
		}
		return
	}
	s.ticks++
	if s.ticks > TickLimit {
		s.StepLimit = true
		s.suspend(t)
	}
}

// Die ends the simulation as the real process would have ended.
func Die(msg string) {
	t := cur
	if t == nil {
		panic("rt: fatal outside of a task: " + msg)
	}
	s := t.sim
	if s.aborting {
		return
	}
	s.Fatal = msg
	s.suspend(t)
}

/* sites */

var sites = map[int32]string{}

// RegisterSites is called by instrumented packages.
func RegisterSites(base int32, names []string) bool {
	for i, n := range names {
		sites[base+int32(i)] = n
	}
	return true
}

var resets []func()

// RegisterReset is called by instrumented packages with the function that puts
// their package-level variables back into their initial state.
func RegisterReset(f func()) bool {
	resets = append(resets, f)
	return true
}

// ResetGlobals makes every run start from freshly initialised packages, so that
// a run depends on nothing but its case.
func ResetGlobals() {
	ResetChans()
	for _, f := range resets {
		f()
	}
}

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// SiteName renders a site.
func SiteName(id int32) string {
	if n, ok := sites[id]; ok {
		return n
	}
	return fmt.Sprintf("site#%d", id)
}

// SiteFunc is the function part of a site name ("v1/buffer.go:12 (*Buffer).Grow").
func SiteFunc(id int32) string {
	n := SiteName(id)
	if i := strings.IndexByte(n, ' '); i >= 0 {
		return n[i+1:]
	}
	return n
}

package scen

import (
	"bytes"
	"fmt"
	"slices"
	"strings"

	"crunchsim/buf"
	"crunchsim/rt"
	"crunchsim/simsync"
)

// rec is one history entry.
type rec struct {
	task, b   int
	op        *buf.Op
	res       buf.Res
	call, ret int
	hold      []rawRec // lock holder's accesses (op == nil)
	holdA     int      // event numbers of the held period
	holdZ     int
	final     bool
}

type rawRec struct {
	i       int
	read    byte
	write   bool
	written byte
}

type callerPanic struct{}

type runner struct {
	c     *Case
	opt   Options
	sim   *rt.Sim
	out   *Outcome
	inst  []*buf.Inst
	model []*buf.State
	init  []*buf.State
	wrap  [][]byte
	ext   []*simsync.Mutex // external locks for kinds without their own
	hist  []*rec
	clos  *rt.Task
	trace bool
	kept  []*buf.Kept
	done  int // calls compared with the model

	flight []flight    // the call in progress on each buffer
	works  [][]*window // memory each buffer works in
}

// flight is a call in progress, and what a crash may leave of it.
type flight struct {
	op  *buf.Op
	mid *buf.State
}

// window is memory of the caller that a buffer works in: its contents lie at base.
type window struct {
	what        string
	mem, shadow []byte
	base        int
}

// Options says what a property looks at.
type Options struct {
	Lin         bool // linearizability of shared locked buffers
	Races       bool
	Outcome     bool // deadlock, step bound, fatal errors, lock free at the end
	Conserve    bool // Next calls claim disjoint adjacent regions
	Exclude     bool // exported lock excludes calls
	Strict      bool // rejected calls must raise the matching crunch error
	LockNeutral bool // MiniBuffer methods leave the lock alone
	NoWrites    bool // shared state unchanged (readers)
	Caller      bool // arguments and results belong to the caller
	Serves      bool // calls that are in range are served
	Wrapped     bool // what calls have written is in the wrapped memory at once
	Polite      bool // only what goes wrong because callers reuse their memory
	Trace       bool
}

func (r *runner) violate(class, format string, a ...any) {
	if r.out.V == nil {
		r.out.V = &Violation{class, fmt.Sprintf(format, a...)}
		if strings.Contains(r.out.V.Msg, "harness:") {
			r.out.V.Class = "harness"
		}
	}
}

func (r *runner) logf(format string, a ...any) {
	if r.opt.Trace {
		r.out.Log = append(r.out.Log, fmt.Sprintf(format, a...))
	}
}

// Run executes a case.
func Run(c *Case, opt Options) *Outcome {
	switch {
	case c.Twin:
		return runTwins(c, opt)
	case opt.Polite:
		return runPolite(c, opt)
	}
	return run(c, opt)
}

// runPolite judges what becomes of the caller's memory: a violation counts when
// it is gone as soon as callers never reuse what they pass and what they get.
func runPolite(c *Case, opt Options) *Outcome {
	out := run(c, opt)
	if out.V == nil || out.V.Class == "wrapped" || out.V.Class == "argument" || out.V.Class == "result-changed" || out.V.Class == "input-changed" {
		return out
	}
	opt.Trace, opt.Caller = false, false
	buf.Polite = true
	defer func() { buf.Polite = false }()
	if p := run(c, opt); p.V != nil {
		out.V = nil
	}
	return out
}

// runTwins executes the case on the checked-in v3 and on the regenerated one.
func runTwins(c *Case, opt Options) *Outcome {
	a := run(c, opt)
	t := *c
	t.Bufs = nil
	for _, b := range c.Bufs {
		n := *b
		n.Kind = buf.TwinName(b.Kind)
		t.Bufs = append(t.Bufs, &n)
	}
	b := run(&t, opt)
	out := a
	v := a.V
	switch {
	case a.V != nil && a.V.Class == "harness":
	case b.V != nil && b.V.Class == "harness":
		v = b.V
	case a.V == nil && b.V != nil:
		v = &Violation{"regenerated", "the regenerated sources misbehave where the checked-in ones do not: " + b.V.Msg}
	case a.V != nil && b.V == nil:
		v = &Violation{"checked-in", "the checked-in sources misbehave where the regenerated ones do not: " + a.V.Msg}
	case a.V != nil && c.TypedOnly:
		v = &Violation{"template-line", "a generated method does not do what its template line says: " + a.V.Msg}
	case a.V != nil && a.V.Class != b.V.Class:
		v = &Violation{"differ", "checked-in and regenerated sources misbehave differently: " + a.V.Msg + " / " + b.V.Msg}
	default:
		v = nil // both fail alike: they do agree
	}
	out.V = v
	out.Steps = max(a.Steps, b.Steps)
	out.Ns += b.Ns
	out.Calls += b.Calls
	out.Rejected += b.Rejected
	out.Faults += b.Faults
	out.FaultSites = append(out.FaultSites, b.FaultSites...)
	out.Panics += b.Panics
	out.Holds += b.Holds
	out.Skipped += b.Skipped
	for m, n := range b.Methods {
		out.Methods[m] += n
	}
	if opt.Trace {
		out.Log = append(append(append([]string{"-- checked-in sources"}, out.Log...), "-- regenerated sources"), b.Log...)
	}
	return out
}

func run(c *Case, opt Options) *Outcome {
	out := &Outcome{Methods: map[string]int{}}
	r := &runner{c: c, opt: opt, out: out}
	rt.ResetGlobals()
	payloads := buf.SharePayloads(c.ops())
	inputs := make([][]byte, len(c.Inputs))
	for i, in := range c.Inputs {
		inputs[i] = append([]byte{}, in...)
	}
	for _, b := range c.Bufs {
		if c.Mode == "own" {
			r.inst, r.model, r.wrap, r.ext, r.init = append(r.inst, nil), append(r.model, nil), append(r.wrap, nil), append(r.ext, nil), append(r.init, nil)
			continue
		}
		x, st, w, err := b.build(inputs)
		if err != nil {
			r.violate("setup", "%v", err)
			return out
		}
		r.inst, r.model, r.wrap = append(r.inst, x), append(r.model, st), append(r.wrap, w)
		r.init = append(r.init, st.Clone())
		r.ext = append(r.ext, &simsync.Mutex{})
		r.flight = append(r.flight, flight{})
		r.works = append(r.works, nil)
		if opt.Wrapped && w != nil && b.keepsMemory() {
			r.track(len(r.inst)-1, "the wrapped slice", w[:cap(w)])
		}
	}
	s := rt.NewSim(c.policy(), c.bound())
	r.sim = s
	s.NsPerStep, s.Seed = rt.NsFor(c.Seed), c.Seed
	s.DetectRaces = opt.Races
	s.Stalls = c.Stalls
	if opt.Wrapped && c.Crash > 0 {
		next := 0
		s.OnPoint = func() {
			if s.Step >= next {
				next = s.Step + max(c.Crash, r.crash()/64) // looking at a lot of memory takes its time
			}
		}
	}
	if opt.Trace {
		s.Trace = func(f string, a ...any) { r.logf("    "+f, a...) }
	}
	for i := range c.Progs {
		i := i
		s.Spawn(fmt.Sprintf("caller %d", i), func() { r.task(i, inputs) })
	}
	if c.Mode == "lin" {
		r.clos = s.Spawn("observer", r.closer)
	}
	s.Run()
	out.Steps, out.Hash, out.Switches, out.Stalls = s.Step, s.SchedHash(), s.Switches, s.StallHits
	out.Deadlock, out.Ns = s.Deadlock, s.Clock()
	out.Preempts = s.Preempts
	r.judge(inputs)
	if opt.Caller && !out.Deadlock {
		for _, k := range r.kept {
			if k.Changed() {
				r.violate("result-changed", "%s: the slice it returned was written to afterwards", k.What)
			}
		}
		if msg := payloads(); msg != "" {
			r.violate("argument", "a call %s", msg)
		}
	}
	return out
}

func (r *runner) task(i int, inputs [][]byte) {
	rt.Point("start")
	for _, st := range r.c.Progs[i] {
		switch r.c.Mode {
		case "lin", "readers":
			if st.A == "hold" {
				r.hold(i, st)
			} else {
				r.call(i, st)
			}
		case "serial":
			r.section(i, st)
		case "own":
			r.own(i, st, inputs)
		}
		rt.Point("between")
	}
}

// invoke performs one call with its planned fault.
func (r *runner) invoke(st *Step) buf.Res {
	t := rt.Cur()
	x := r.inst[st.B]
	if st.Fault > 0 {
		t.Elems, t.FaultAt, t.FaultFired = 0, st.Fault, false
	}
	if r.opt.Trace {
		r.logf("task %d: buffer %d %s ...", t.ID, st.B, x.K.Show(st.Op))
	}
	r.out.Methods[x.K.Name+"."+x.K.Method(st.Op)]++
	res := x.Call(st.Op)
	if r.opt.Caller {
		if res.Bad != "" {
			r.violate("argument", "task %d: %s %s", t.ID, x.K.Show(st.Op), res.Bad)
		}
		if n := len(res.Vals); n > 0 && n <= 1024 && res.Own != nil && len(r.kept) < 200 {
			r.kept = append(r.kept, res.Keep(fmt.Sprintf("task %d: %s", t.ID, x.K.Show(st.Op)), n%2 == len(r.kept)%2))
		}
	}
	if st.Fault > 0 {
		if t.FaultFired {
			r.out.Faults++
			r.out.FaultSites = append(r.out.FaultSites, t.FaultSite)
			if res.Panic != "fault" {
				// the code absorbed the fault: it may report it any way it likes,
				// but as a failed call
				if res.Panic == "" {
					r.violate("fault-swallowed", "task %d: %s returned %v although a memory fault struck inside it", t.ID, x.K.Show(st.Op), res)
				}
				res = buf.Res{Panic: "fault"}
			}
		}
		t.FaultAt, t.FaultFired = 0, false
	}
	r.out.Calls++
	if res.Panic != "" && res.Panic != "fault" {
		r.out.Rejected++
	}
	if r.opt.Trace {
		r.logf("task %d: buffer %d %s -> %v", t.ID, st.B, x.K.Show(st.Op), res)
	}
	return res
}

func (r *runner) call(i int, st *Step) {
	h := &rec{task: i, b: st.B, op: st.Op, call: r.sim.Event()}
	r.hist = append(r.hist, h)
	h.res = r.invoke(st)
	h.ret = r.sim.Event()
}

func (r *runner) hold(i int, st *Step) {
	x := r.inst[st.B]
	h := &rec{task: i, b: st.B, call: r.sim.Event()}
	r.hist = append(r.hist, h)
	r.out.Holds++
	x.Lock()
	h.holdA = r.sim.Event()
	r.logf("task %d: buffer %d Lock acquired by the caller", i, st.B)
	w := r.wrap[st.B]
	for _, a := range st.Raw {
		if a.I >= len(w) {
			continue
		}
		v := rt.LdE(&w[a.I], -2)
		rr := rawRec{i: a.I, read: v}
		if a.Add != 0 {
			rr.write, rr.written = true, v+a.Add
			rt.AtE(&w[a.I], -3).Set(rr.written)
		}
		r.logf("task %d: holder reads %#x at byte %d, writes %v %#x", i, v, a.I, rr.write, rr.written)
		h.hold = append(h.hold, rr)
	}
	h.holdZ = r.sim.Event()
	r.logf("task %d: buffer %d Unlock by the caller", i, st.B)
	x.Unlock()
	h.ret = r.sim.Event()
}

// closer looks at the buffers once everybody else is done.
func (r *runner) closer() {
	rt.AwaitOthers()
	for b, x := range r.inst {
		x.Lock()
		x.Unlock()
		for _, f := range finalOps {
			h := &rec{task: len(r.c.Progs), b: b, op: f, call: r.sim.Event(), final: true}
			r.hist = append(r.hist, h)
			h.res = x.Call(f)
			h.ret = r.sim.Event()
		}
	}
}

var finalOps = []*buf.Op{{F: "bytes"}, {F: "cap"}, {F: "bcap"}, {F: "off"}, {F: "boff"}, {F: "after"}, {F: "afterbit"}}

func (r *runner) stop(class, format string, a ...any) {
	r.violate(class, format, a...)
	rt.Stop()
}

// live performs a call and compares it with the model right away, as often as
// the step says.
func (r *runner) live(i int, st *Step) {
	for n := max(st.Op.Rep, 1); n > 0; n-- {
		r.once(i, st, n == 1)
	}
}

func (r *runner) once(i int, st *Step, last bool) {
	k, m := r.inst[st.B].K, r.model[st.B]
	if !m.Defined(k, st.Op) || st.Fault > 0 && !m.Succeeds(k, st.Op) {
		r.out.Skipped++
		return
	}
	t := rt.Cur()
	h, a, rl := t.Held, t.Acquired, t.Released
	if r.opt.Wrapped {
		r.flight[st.B] = flight{op: st.Op}
	}
	res := r.invoke(st)
	if r.opt.LockNeutral && (t.Held != h || t.Acquired != a || t.Released != rl) {
		r.stop("lock-use", "task %d: %s.%s used the buffer's lock itself", i, k.Name, k.Show(st.Op))
	}
	if r.out.V != nil {
		rt.Stop()
	}
	res.NoContent = false
	if r.opt.Wrapped {
		r.flight[st.B] = flight{}
	}
	before := m.Clone()
	if msg := m.Apply(k, st.Op, &res, r.opt.Strict && !k.Mini); msg != "" {
		r.stop("result", "task %d: %s.%s %s (before the call: %s)", i, k.Name, k.Show(st.Op), msg, before)
	}
	if r.opt.Wrapped {
		r.settle(st.B, st.Op, &res)
		if msg := r.windows(st.B, m); msg != "" {
			r.stop("wrapped", "task %d: after %s %s: %s", i, k.Name, k.Show(st.Op), msg)
		}
		r.keep(st.B)
	}
	if !last && r.done%17 != 0 {
		r.done++
		return
	}
	if r.done++; r.c.Shy == 0 || st.Fault > 0 || r.done%r.c.Shy == 0 {
		r.peek(i, st.B, st.Op, before)
	}
}

func (r *runner) track(b int, what string, mem []byte) {
	r.works[b] = append(r.works[b], &window{what, mem, append([]byte{}, mem...), 0})
}

// settle follows what a call did to the place of the contents.
func (r *runner) settle(b int, op *buf.Op, res *buf.Res) {
	if res.Panic != "" {
		return
	}
	switch op.F {
	case "grow", "reset":
		r.works[b] = nil
	case "truncl":
		for _, w := range r.works[b] {
			w.base += int(op.N)
		}
	}
}

// windows compares the memory a buffer works in with the model.
func (r *runner) windows(b int, m *buf.State) string {
	for _, w := range r.works[b] {
		end := min(w.base+len(m.Data), len(w.mem))
		if m.Holds(w.mem[w.base:end]) && bytes.Equal(w.mem[:w.base], w.shadow[:w.base]) && bytes.Equal(w.mem[end:], w.shadow[end:]) {
			continue
		}
		for i, x := range w.mem {
			want, d := w.shadow[i], byte(0)
			if j := i - w.base; i < w.base || i >= end {
				d = x ^ want
			} else {
				want = m.Data[j]
				d = (x ^ want) &^ m.Unk[j]
			}
			if d != 0 {
				return fmt.Sprintf("byte %d of %s is %#02x, want %#02x", i, w.what, x, want)
			}
		}
	}
	return ""
}

// keep notes the contents of the memory as right.
func (r *runner) keep(b int) {
	for _, w := range r.works[b] {
		copy(w.shadow, w.mem)
	}
}

// crash looks at what a crash at this moment would leave in the wrapped memory,
// and says how much that is.
func (r *runner) crash() int {
	size := 0
	if r.out.V != nil {
		return size
	}
	r.out.Crashes++
	for b, x := range r.inst {
		m, f := r.model[b], &r.flight[b]
		op := f.op
		if len(r.works[b]) == 0 || op != nil && (op.F == "grow" || op.F == "reset") {
			continue
		}
		if op != nil {
			if f.mid == nil {
				f.mid = m.Clone()
				f.mid.Apply(x.K, op, &buf.Res{Panic: "fault"}, false)
			}
			m = f.mid
		}
		if msg := r.windows(b, m); msg != "" {
			doing := "between two calls"
			if op != nil {
				doing = "while " + x.K.Show(op) + " is in progress"
			}
			r.violate("wrapped", "%s buffer %d %s at step %d: after a crash %s", x.K.Name, b, doing, r.sim.Step, msg)
			return size
		}
		for _, w := range r.works[b] {
			size += len(w.mem)
		}
	}
	return size
}

// poke writes to the slice that Bytes returns.
func (r *runner) poke(i, b int, st *Step) {
	x, m := r.inst[b], r.model[b]
	var v []byte
	rt.Quiet(func() { v = x.Call(&buf.Op{F: "bytes"}).Alias })
	if !buf.Polite {
		for _, a := range st.Raw {
			if a.I < len(v) {
				n := m.Data[a.I] + a.Add
				rt.AtE(&v[a.I], -3).Set(n)
				m.RawWrite(int64(a.I), n)
				r.logf("task %d: buffer %d: stores %#x at byte %d of Bytes()", i, b, n, a.I)
			}
		}
	}
	var now []byte
	rt.Quiet(func() { now = x.Call(&buf.Op{F: "bytes"}).Alias })
	if len(now) != len(m.Data) || !m.Holds(now) {
		r.stop("wrapped", "task %d: %s buffer %d: what was written to the slice that Bytes returned is not in the buffer: contents %x, want %x", i, x.K.Name, b, now, m.Data)
	}
	if len(r.works[b]) < 4 {
		r.track(b, "a slice that Bytes returned", v)
	}
	if msg := r.windows(b, m); msg != "" {
		r.stop("wrapped", "task %d: after writing to the slice that Bytes returned: %s", i, msg)
	}
	r.keep(b)
}

// peek compares the complete observable state with the model.
func (r *runner) peek(i, b int, op *buf.Op, before *buf.State) {
	x, m := r.inst[b], r.model[b]
	msg := ""
	rt.Quiet(func() {
		for _, f := range finalOps {
			res := x.Call(f)
			if e := m.Apply(x.K, f, &res, false); e != "" && msg == "" {
				msg = x.K.Show(f) + " " + e
			}
		}
	})
	if msg != "" {
		when := "construction"
		if op != nil {
			when = x.K.Show(op)
		}
		r.stop("state", "task %d: after %s %s: %s (before: %v)", i, x.K.Name, when, msg, before)
	}
}

func (r *runner) section(i int, st *Step) {
	x := r.inst[st.B]
	lock, unlock := r.ext[st.B].Lock, r.ext[st.B].Unlock
	if x.K.Mini && x.K.V != 3 {
		lock, unlock = x.Lock, x.Unlock
	}
	r.out.Holds++
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(callerPanic); !ok {
					panic(e)
				}
				r.out.Panics++
			}
		}()
		lock()
		defer unlock()
		for _, s := range st.Sub {
			if s.A == "panic" {
				r.logf("task %d: panics inside its section", i)
				panic(callerPanic{})
			}
			s.B = st.B
			if s.A == "poke" {
				r.poke(i, st.B, s)
				continue
			}
			r.live(i, s)
		}
	}()
}

func (r *runner) own(i int, st *Step, inputs [][]byte) {
	b := st.B
	if st.A == "scribble" && buf.Polite {
		return
	}
	if st.A == "scribble" {
		if s := r.wrap[b]; len(s) > 0 && r.c.Bufs[b].Shared {
			s[0] ^= 0xff
		}
		return
	}
	if r.inst[b] == nil {
		spec := r.c.Bufs[b]
		x, m, _, err := r.buildOwn(spec, inputs, b)
		if err != nil {
			r.stop("setup", "%v", err)
		}
		r.inst[b], r.model[b] = x, m
		r.peek(i, b, nil, m)
	}
	r.live(i, st)
}

// buildOwn constructs inside the task, with hooks on.
func (r *runner) buildOwn(b *BufSpec, inputs [][]byte, bi int) (*buf.Inst, *buf.State, []byte, error) {
	k := b.kind()
	var in [][]byte
	var content []byte
	if b.Shared {
		for _, s := range inputs {
			in = append(in, s)
			content = append(content, s...)
		}
	} else {
		for _, s := range b.Slices {
			c := make([]byte, len(s), len(s)+b.Spare)
			copy(c, s)
			in = append(in, c)
			content = append(content, s...)
		}
	}
	var x *buf.Inst
	var perr any
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch e.(type) {
				case rt.Abort, rt.Killed:
					panic(e)
				}
				perr = e
			}
		}()
		x = k.New(in...)
	}()
	if perr != nil {
		return nil, nil, nil, fmt.Errorf("constructor of %s panicked: %v", b.Kind, perr)
	}
	if !b.Shared && !buf.Polite {
		taken(in) // later changes to the inputs must not be seen
	}
	return x, buf.NewState(content), nil, nil
}

func (r *runner) judge(inputs [][]byte) {
	s, out := r.sim, r.out
	if r.opt.Races && len(s.Races) > 0 {
		r.violate("race", "unordered conflicting accesses: %v", s.Races[0])
	}
	if r.opt.Outcome || r.c.Mode == "serial" || r.c.Mode == "own" || r.c.Mode == "readers" {
		switch {
		case s.Fatal != "":
			r.violate("fatal", "the process would die: fatal error: %s", s.Fatal)
		case s.StepLimit:
			r.violate("stuck", "calls did not complete within %d steps", s.MaxSteps)
		case s.Deadlock && r.clos != nil && s.OnlyWaiter(r.clos):
			r.violate("lock-leak", "the buffer's lock is still held after every call has ended")
		case s.Deadlock:
			r.violate("deadlock", "deadlock: %v", s.Blocked)
		}
	}
	if out.V != nil {
		return
	}
	complete := s.Fatal == "" && !s.StepLimit && !s.Deadlock && !s.Stopped
	if r.opt.Exclude {
		r.exclusion()
	}
	if r.opt.Serves {
		r.serves()
	}
	if out.V == nil && r.opt.Lin && complete {
		for b := range r.inst {
			if v := r.linearize(b); v != "" {
				r.violate("linearizability", "buffer %d: %s", b, v)
				break
			}
		}
	}
	if out.V == nil && r.opt.Conserve && complete && !r.c.BitsOnly {
		r.conserve()
	}
	if out.V == nil && r.c.Mode == "readers" && complete {
		r.readers()
	}
	if out.V == nil && r.c.Mode == "own" {
		for i, in := range inputs {
			if !bytes.Equal(in, r.c.Inputs[i]) {
				r.violate("input-changed", "shared input %d changed from %x to %x", i, r.c.Inputs[i], in)
			}
		}
	}
}

// serves: a call that is in range whatever the others do must not give up.
func (r *runner) serves() {
	for b, x := range r.inst {
		if slices.ContainsFunc(r.hist, func(h *rec) bool { return h.b == b && h.op != nil && h.op.F == "reset" }) {
			continue
		}
		for _, h := range r.hist {
			if h.b != b || h.op == nil || h.ret == 0 || h.op.Next || h.res.Panic == "" || h.res.Panic == "fault" || !r.init[b].Succeeds(x.K, h.op) {
				continue
			}
			r.violate("gave-up", "task %d: %s.%s panicked with %q although it was in range all the time", h.task, x.K.Name, x.K.Show(h.op), h.res.Panic)
			return
		}
	}
}

// readers: every call must return what a lone caller gets, and nothing changes.
func (r *runner) readers() {
	for _, h := range r.hist {
		k := r.inst[h.b].K
		m := r.init[h.b].Clone()
		h.res.NoContent = false
		if msg := m.Apply(k, h.op, &h.res, r.opt.Strict); msg != "" {
			r.violate("result", "task %d: %s.%s %s (the buffer: %s)", h.task, k.Name, k.Show(h.op), msg, r.init[h.b])
			return
		}
	}
	for b, x := range r.inst {
		m := r.init[b].Clone()
		for _, f := range finalOps {
			var res buf.Res
			rt.Quiet(func() { res = x.Call(f) })
			if msg := m.Apply(x.K, f, &res, false); msg != "" {
				r.violate("state", "after read-only calls %s.%s %s", x.K.Name, x.K.Show(f), msg)
				return
			}
		}
	}
}

func exempt(op *buf.Op) bool {
	switch op.F {
	case "cap", "bcap", "off", "boff", "after", "afterbit", "bytes", "refresh":
		return true
	case "grow", "readbytes", "read", "readbits", "setbits":
		return op.N <= 0
	case "writebytes":
		return len(op.Data) == 0
	case "write":
		return len(op.Vals) == 0
	case "seek", "seekbit":
		return op.Rel && op.Off == 0
	}
	return false
}

// exclusion: no call by another task ran from start to end while a caller held
// the exported lock.
func (r *runner) exclusion() {
	for _, h := range r.hist {
		if h.op != nil || h.holdZ == 0 {
			continue
		}
		for _, c := range r.hist {
			if c.op == nil || c.b != h.b || c.task == h.task || c.ret == 0 || c.res.Panic != "" || exempt(c.op) {
				continue
			}
			if c.call > h.holdA && c.ret < h.holdZ {
				r.violate("exclusion", "task %d's %s on buffer %d ran to completion while task %d held the buffer's lock", c.task, r.inst[c.b].K.Show(c.op), c.b, h.task)
				return
			}
		}
	}
}

// conserve: successful Next calls cover adjacent disjoint regions exactly once.
// Writers store bytes >= 0x80 tagged with their number, the initial content
// numbers its positions below 0x80.
func (r *runner) conserve() {
	for b, x := range r.inst {
		var final []byte
		var endOff int64
		for _, h := range r.hist {
			if h.final && h.b == b {
				switch h.op.F {
				case "bytes":
					final = h.res.Bytes
				case "off":
					endOff = h.res.Int
				}
			}
		}
		start := r.init[b].Off
		owner := map[int64]*rec{}
		total := int64(0)
		claim := func(h *rec, at, n int64) bool {
			for i := at; i < at+n; i++ {
				if o := owner[i]; o != nil {
					r.violate("claim", "byte %d was claimed twice: by task %d's %s and by task %d's %s", i, o.task, x.K.Show(o.op), h.task, x.K.Show(h.op))
					return false
				}
				owner[i] = h
			}
			total += n
			return true
		}
		for _, h := range r.hist {
			if h.b != b || h.final || h.op == nil || h.res.Panic != "" || h.ret == 0 {
				continue
			}
			enc := []byte(nil)
			switch h.op.F {
			case "readbyte":
				enc = []byte{byte(h.res.Int)}
			case "readbytes":
				enc = h.res.Alias // regions are never rewritten: still what was read
			case "read":
				o := *h.op
				o.F, o.Vals = "write", h.res.Vals
				enc = o.Encode()
				if h.op.Size == 1 {
					enc = h.res.Alias
				}
			default:
				enc = h.op.Encode()
			}
			if len(enc) == 0 {
				continue
			}
			at := int64(-1)
			if h.op.F[0] == 'r' {
				at = int64(bytes.Index(r.init[b].Data, enc))
			} else {
				at = int64(bytes.Index(final, enc))
			}
			if at < 0 {
				r.violate("claim", "task %d's %s: its payload %x is not one contiguous region of the buffer (final contents %x)", h.task, x.K.Show(h.op), enc, final)
				return
			}
			if !claim(h, at, int64(len(enc))) {
				return
			}
		}
		if endOff != start+total {
			r.violate("claim", "the cursor ended at %d, want %d: it started at %d and successful calls claimed %d bytes", endOff, start+total, start, total)
			return
		}
		for i := start; i < endOff; i++ {
			if owner[i] == nil {
				r.violate("claim", "byte %d was skipped: the cursor moved from %d to %d", i, start, endOff)
				return
			}
		}
	}
}

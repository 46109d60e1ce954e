// Package scen generates, runs, judges and minimises simulated executions of
// the crunch buffers.
package scen

import (
	"fmt"
	"math/rand"
	"strings"

	"crunchsim/buf"
	"crunchsim/rt"
)

// BufSpec says how a buffer is made.
type BufSpec struct {
	Kind string `json:"kind"`
	// Slices are handed to the constructor; Spare is extra capacity (filled
	// with garbage) behind the first of them.
	Slices [][]byte `json:"slices"`
	Spare  int      `json:"spare,omitempty"`
	// Shared: the slices are inputs shared by all tasks (C08).
	Shared bool `json:"shared,omitempty"`
	// Pre is executed before the tasks start.
	Pre []*buf.Op `json:"pre,omitempty"`
}

// Raw is one access of the lock holder to the memory it wrapped.
type Raw struct {
	I   int  `json:"i"`
	Add byte `json:"add,omitempty"` // store the value read plus Add (0: read only)
}

// Step is one action of a task.
type Step struct {
	// A: "call", "hold" (take the exported lock, touch the wrapped memory,
	// release), "section" (calls between Lock and Unlock), "panic" (inside a
	// section: the caller panics, releases and recovers), "scribble" (the task
	// changes an input slice it built a buffer from), "poke" (inside a
	// section: the caller writes to what Bytes returns).
	A     string  `json:"a"`
	B     int     `json:"b,omitempty"`
	Op    *buf.Op `json:"op,omitempty"`
	Fault int     `json:"fault,omitempty"`
	Raw   []Raw   `json:"raw,omitempty"`
	Sub   []*Step `json:"sub,omitempty"`
}

// Policy names a schedule policy.
type Policy struct {
	Name string  `json:"name"`
	P    float64 `json:"p,omitempty"`
	D    int     `json:"d,omitempty"`
	K    int     `json:"k,omitempty"`
	Seed uint64  `json:"seed"`
}

// Case is one simulated execution, completely.
type Case struct {
	Property string       `json:"property"`
	Seed     uint64       `json:"seed"`
	Mode     string       `json:"mode"` // lin, serial, own, readers
	Bufs     []*BufSpec   `json:"bufs"`
	Inputs   [][]byte     `json:"inputs,omitempty"`
	Progs    [][]*Step    `json:"progs"`
	Stalls   []rt.StallAt `json:"stalls,omitempty"`
	MaxSteps int          `json:"max_steps"`
	Policy   Policy       `json:"policy"`
	// Switches is the explicit schedule; when set it replaces Policy.
	Switches []rt.Switch `json:"switches,omitempty"`
	Explicit bool        `json:"explicit,omitempty"`
	// BitsOnly: the claims of this case are bits, the byte conservation check does not apply.
	BitsOnly bool `json:"bits_only,omitempty"`
	// Twin: the case runs on the checked-in v3 and on the regenerated one.
	Twin bool `json:"twin,omitempty"`
	// Crash: the wrapped memory is looked at, as after a crash, at every Crash-th scheduling point.
	Crash int `json:"crash,omitempty"`
	// Shy: the complete state is looked at after every Shy-th call only (0: after each), as looking is itself calls.
	Shy int `json:"shy,omitempty"`
	// TypedOnly: the only calls are those of methods made from template lines.
	TypedOnly bool `json:"typed_only,omitempty"`
}

// ops lists the calls of the programs.
func (c *Case) ops() (l []*buf.Op) {
	var walk func([]*Step)
	walk = func(p []*Step) {
		for _, st := range p {
			if st.Op != nil {
				l = append(l, st.Op)
			}
			walk(st.Sub)
		}
	}
	for _, p := range c.Progs {
		walk(p)
	}
	return l
}

func (c *Case) policy() rt.Policy {
	if c.Explicit {
		return &rt.Replay{Switches: c.Switches}
	}
	r := NewRand(c.Policy.Seed)
	switch c.Policy.Name {
	case "pct":
		return rt.NewPCT(r, c.Policy.D, max(1, c.Policy.K))
	case "burst":
		return &rt.Burst{R: r, Mean: max(1, c.Policy.K)}
	}
	return &rt.RandomWalk{R: r, P: c.Policy.P}
}

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Outcome is what a run produced.
type Outcome struct {
	V                       *Violation
	Steps                   int
	Ns                      int64 // simulated time
	Hash                    uint64
	Switches                []rt.Switch
	Calls                   int
	Rejected                int
	Faults                  int
	FaultSites              []int32
	Stalls                  int
	Panics                  int
	Holds                   int
	Crashes                 int
	Skipped                 int
	Methods                 map[string]int
	LinStates, LinUndecided int
	Log                     []string
	Deadlock                bool
	Preempts                []uint64
}

// ops of the step, nested ones included
func (st *Step) ops() (n int) {
	if st.Op != nil {
		n++
	}
	for _, s := range st.Sub {
		n += s.ops()
	}
	return n
}

func units(op *buf.Op) int {
	u := int(op.N)
	if u < 0 || u > 1<<20 {
		u = 8
	}
	if op.Size > 0 && len(op.Vals) == 0 {
		u *= op.Size
	}
	return u + len(op.Data) + len(op.Vals)*8 + 1
}

// bound is the step budget of a case: generous and proportional to the memory
// the calls may touch.
func (c *Case) bound() int {
	capn := 8
	for _, b := range c.Bufs {
		for _, s := range b.Slices {
			capn += len(s)
		}
		if b.Shared {
			for _, s := range c.Inputs {
				capn += len(s)
			}
		}
		for _, o := range b.Pre {
			if o.F == "grow" && o.N > 0 && o.N < 1<<20 {
				capn += int(o.N) * max(o.Rep, 1)
			}
		}
	}
	var each func(st *Step)
	n, u := 0, 0
	each = func(st *Step) {
		if st.Op != nil {
			rep := max(st.Op.Rep, 1)
			n += rep
			u += units(st.Op) * rep
			if st.Op.F == "grow" && st.Op.N > 0 && st.Op.N < 1<<20 {
				capn += int(st.Op.N) * rep
			}
		}
		n += 1
		for _, s := range st.Sub {
			each(s)
		}
	}
	for _, p := range c.Progs {
		for _, st := range p {
			each(st)
		}
	}
	b := 4000 + 100*u + 60*n*capn
	for _, s := range c.Stalls {
		b += 2 * s.N
	}
	return 2 * b
}

func (b *BufSpec) kind() *buf.Kind { return buf.ByName[b.Kind] }

// build makes the real buffer and its model. The returned slice is the memory
// the caller wrapped (single-slice constructor only).
// keepsMemory reports whether the preparation leaves the contents where they are.
func (b *BufSpec) keepsMemory() bool {
	for _, op := range b.Pre {
		switch op.F {
		case "grow", "reset", "truncl", "truncr":
			return false
		}
	}
	return true
}

// taken: a constructor has copied several slices, the caller goes on using them.
func taken(in [][]byte) {
	for i, s := range in {
		for j := range s {
			if len(in) > 1 {
				s[j] ^= 0xff
			}
		}
		in[i] = []byte("reused")
	}
}

func (b *BufSpec) build(inputs [][]byte) (*buf.Inst, *buf.State, []byte, error) {
	k := b.kind()
	var in [][]byte
	var content []byte
	for i, s := range b.Slices {
		c := make([]byte, len(s), len(s)+b.Spare)
		copy(c, s)
		if b.Spare > 0 && i == 0 {
			g := c[len(s) : len(s)+b.Spare]
			for j := range g {
				g[j] = byte(0xA0 + j)
			}
		}
		in = append(in, c)
		content = append(content, s...)
	}
	if b.Shared {
		in, content = nil, nil
		for _, s := range inputs {
			in = append(in, s)
			content = append(content, s...)
		}
	}
	var wrapped []byte
	if len(in) == 1 {
		wrapped = in[0]
	}
	x := k.New(in...)
	if !b.Shared && !buf.Polite {
		taken(in)
	}
	st := buf.NewState(content)
	for _, op := range b.Pre {
		for n := max(op.Rep, 1); n > 0; n-- {
			if !st.Succeeds(k, op) && !st.Fails(k, op) {
				return nil, nil, nil, fmt.Errorf("harness: preparation %s is not defined", k.Show(op))
			}
			var res buf.Res
			rt.Quiet(func() { res = x.Call(op) })
			if m := st.Apply(k, op, &res, false); m != "" {
				return nil, nil, nil, fmt.Errorf("preparation %s %s", k.Show(op), m)
			}
		}
	}
	return x, st, wrapped, nil
}

// Describe renders a case for people.
func (c *Case) Describe() string {
	var b strings.Builder
	for i, s := range c.Bufs {
		var n []string
		for _, x := range s.Slices {
			n = append(n, fmt.Sprintf("%x", x))
		}
		sh := strings.Join(n, " ")
		if len(sh) > 120 {
			sh = sh[:120] + ".."
		}
		if s.Shared {
			sh = "shared inputs"
		}
		fmt.Fprintf(&b, "buffer %d: %s over [%s] spare %d", i, s.Kind, sh, s.Spare)
		for _, o := range s.Pre {
			b.WriteString(" " + s.kind().Show(o))
		}
		b.WriteString("\n")
	}
	var show func(ind string, st *Step)
	show = func(ind string, st *Step) {
		switch st.A {
		case "call":
			f := ""
			if st.Fault > 0 {
				f = fmt.Sprintf("   [memory fault at element access %d]", st.Fault)
			}
			fmt.Fprintf(&b, "%sbuffer %d: %s%s\n", ind, st.B, c.Bufs[st.B].kind().Show(st.Op), f)
		case "hold":
			fmt.Fprintf(&b, "%sbuffer %d: Lock, touch wrapped memory %v, Unlock\n", ind, st.B, st.Raw)
		case "poke":
			fmt.Fprintf(&b, "%swrites through Bytes: %v\n", ind, st.Raw)
		case "section":
			fmt.Fprintf(&b, "%sbuffer %d: Lock\n", ind, st.B)
			for _, s := range st.Sub {
				show(ind+"  ", s)
			}
			fmt.Fprintf(&b, "%sbuffer %d: Unlock\n", ind, st.B)
		default:
			fmt.Fprintf(&b, "%s%s\n", ind, st.A)
		}
	}
	for i, p := range c.Progs {
		fmt.Fprintf(&b, "task %d:\n", i)
		for _, st := range p {
			show("  ", st)
		}
	}
	for _, s := range c.Stalls {
		fmt.Fprintf(&b, "task %d stalls at step %d for %d steps\n", s.Task, s.Step, s.N)
	}
	return b.String()
}

func pick[T any](r *rand.Rand, l []T) T { return l[r.Intn(len(l))] }

package scen

import (
	"encoding/json"
	"time"

	"crunchsim/buf"
	"crunchsim/rng"
	"crunchsim/rt"
)

func (c *Case) clone() *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	n := new(Case)
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

// Minimize shrinks a failing case while the same kind of violation remains.
// It works by re-running candidates under the recorded schedule and, if that
// no longer fails, under a fixed number of seeded schedules.
func Minimize(c *Case, out *Outcome, opt Options, budget time.Duration) (*Case, *Outcome) {
	end := time.Now().Add(budget)
	best := c.clone()
	best.Switches, best.Explicit = append([]rt.Switch(nil), out.Switches...), true
	bo := Run(best, opt)
	if bo.V == nil || bo.V.Class != out.V.Class {
		return c, out // cannot happen for a deterministic run; keep the original
	}
	try := func(n *Case) bool {
		if time.Now().After(end) {
			return false
		}
		n.MaxSteps = n.bound()
		if o := Run(n, opt); o.V != nil && o.V.Class == bo.V.Class {
			n.Switches, n.Explicit = o.Switches, true
			best, bo = n, o
			return true
		}
		if o := tryPolicies(n, opt, bo.V.Class, 60, end); o != nil {
			n.Switches, n.Explicit = o.Switches, true
			if o2 := Run(n, opt); o2.V != nil && o2.V.Class == bo.V.Class {
				best, bo = n, o2
				return true
			}
		}
		return false
	}
	if best.Shy != 0 {
		n := best.clone()
		n.Shy = 0
		try(n)
	}
	if best.Crash > 1 {
		n := best.clone()
		n.Crash = 1
		try(n)
	}
	for again := true; again && time.Now().Before(end); {
		again = false
		for i := len(best.Progs) - 1; i >= 0; i-- { // whole tasks
			if len(best.Progs) > 1 {
				n := best.clone()
				n.Progs = append(n.Progs[:i], n.Progs[i+1:]...)
				var st []rt.StallAt
				for _, s := range n.Stalls {
					if s.Task == i {
						continue
					}
					if s.Task > i {
						s.Task--
					}
					st = append(st, s)
				}
				n.Stalls = st
				again = try(n) || again
			}
		}
		for i := 0; i < len(best.Progs); i++ { // long stretches of steps
			for sz := len(best.Progs[i]) / 2; sz > 2; sz /= 2 {
				for j := len(best.Progs[i]) - sz; j >= 0; j -= sz {
					if j+sz > len(best.Progs[i]) {
						continue
					}
					n := best.clone()
					n.Progs[i] = append(n.Progs[i][:j:j], n.Progs[i][j+sz:]...)
					again = try(n) || again
				}
			}
		}
		for i := 0; i < len(best.Progs); i++ { // steps
			for j := len(best.Progs[i]) - 1; j >= 0; j-- {
				n := best.clone()
				n.Progs[i] = append(n.Progs[i][:j], n.Progs[i][j+1:]...)
				again = try(n) || again
			}
			for j := 0; j < len(best.Progs[i]); j++ {
				for x := len(best.Progs[i][j].Sub) - 1; x >= 0; x-- {
					n := best.clone()
					s := n.Progs[i][j]
					s.Sub = append(s.Sub[:x], s.Sub[x+1:]...)
					again = try(n) || again
				}
				for x := len(best.Progs[i][j].Raw) - 1; x >= 0; x-- {
					n := best.clone()
					s := n.Progs[i][j]
					s.Raw = append(s.Raw[:x], s.Raw[x+1:]...)
					again = try(n) || again
				}
			}
		}
		for i := len(best.Stalls) - 1; i >= 0; i-- {
			n := best.clone()
			n.Stalls = append(n.Stalls[:i], n.Stalls[i+1:]...)
			again = try(n) || again
		}
		for i := 0; i < len(best.Bufs); i++ { // preparation and contents
			for j := len(best.Bufs[i].Pre) - 1; j >= 0; j-- {
				n := best.clone()
				b := n.Bufs[i]
				b.Pre = append(b.Pre[:j], b.Pre[j+1:]...)
				again = try(n) || again
			}
			if best.Bufs[i].Spare > 0 {
				n := best.clone()
				n.Bufs[i].Spare = 0
				again = try(n) || again
			}
			for s := 0; s < len(best.Bufs[i].Slices); s++ {
				for _, d := range []int{64, 16, 4, 1} {
					for len(best.Bufs[i].Slices[s]) >= d && time.Now().Before(end) {
						n := best.clone()
						n.Bufs[i].Slices[s] = n.Bufs[i].Slices[s][:len(n.Bufs[i].Slices[s])-d]
						if !try(n) {
							break
						}
						again = true
					}
				}
			}
		}
		// single calls: fewer faults, shorter payloads, smaller numbers
		visit(best, func(path []int) {
			for _, f := range []func(st *Step) bool{
				func(st *Step) bool { ok := st.Fault > 0; st.Fault = 0; return ok },
				func(st *Step) bool { ok := st.Fault > 1; st.Fault = 1; return ok },
				func(st *Step) bool { ok := st.Op.Rep > 1; st.Op.Rep = 0; return ok },
				func(st *Step) bool { ok := st.Op.Rep > 3; st.Op.Rep /= 2; return ok },
				func(st *Step) bool { ok := st.Op.Pre != 0; st.Op.Pre = 0; return ok },
				func(st *Step) bool { return shorten(st.Op, 2) },
				func(st *Step) bool { return shorten(st.Op, 1) },
				func(st *Step) bool { ok := st.Op.Off > 0; st.Op.Off = 0; return ok },
			} {
				n := best.clone()
				st := at(n, path)
				if st == nil || st.Op == nil {
					return
				}
				if f(st) && try(n) {
					again = true
				}
			}
		})
	}
	// the schedule: drop switches one at a time
	for i := len(best.Switches) - 1; i >= 0 && time.Now().Before(end.Add(budget/2)); i-- {
		n := best.clone()
		n.Switches = append(n.Switches[:i], n.Switches[i+1:]...)
		if o := Run(n, opt); o.V != nil && o.V.Class == bo.V.Class {
			n.Switches = o.Switches
			if len(n.Switches) < len(best.Switches) {
				best, bo = n, o
				if i > len(best.Switches) {
					i = len(best.Switches)
				}
			}
		}
	}
	return best, bo
}

func visit(c *Case, f func(path []int)) {
	for i := range c.Progs {
		for j := range c.Progs[i] {
			f([]int{i, j})
			for x := range c.Progs[i][j].Sub {
				f([]int{i, j, x})
			}
		}
	}
}

func at(c *Case, p []int) *Step {
	if p[0] >= len(c.Progs) || p[1] >= len(c.Progs[p[0]]) {
		return nil
	}
	st := c.Progs[p[0]][p[1]]
	if len(p) == 3 {
		if p[2] >= len(st.Sub) {
			return nil
		}
		return st.Sub[p[2]]
	}
	return st
}

func shorten(op *buf.Op, to int) bool {
	switch {
	case len(op.Data) > to:
		op.Data = op.Data[:to]
	case len(op.Vals) > to:
		op.Vals = op.Vals[:to]
	case op.N > int64(to):
		op.N = int64(to)
	default:
		return false
	}
	return true
}

func tryPolicies(c *Case, opt Options, class string, n int, end time.Time) *Outcome {
	for i := 0; i < n && time.Now().Before(end); i++ {
		x := *c
		x.Explicit, x.Switches = false, nil
		r := NewRand(rng.Mix(c.Seed, uint64(i)))
		genPolicy(r, &x)
		if o := Run(&x, opt); o.V != nil && o.V.Class == class {
			return o
		}
	}
	return nil
}

package gens

import (
	"encoding/json"
	"time"

	"crunchsim/rng"
)

func (c *Case) clone() *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	n := new(Case)
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

// Minimize shrinks a failing case while the same kind of violation remains.
func Minimize(c *Case, out *Outcome, budget time.Duration) (*Case, *Outcome) {
	end := time.Now().Add(budget)
	best := c.clone() // Run recorded the schedule in it
	best.Explicit = true
	bo := Run(best, Options{})
	if bo.V == nil || bo.V.Class != out.V.Class {
		return c, out
	}
	try := func(n *Case) bool {
		if time.Now().After(end) {
			return false
		}
		m := n.clone()
		if o := Run(m, Options{}); o.V != nil && o.V.Class == bo.V.Class {
			best, bo = m, o
			return true
		}
		overlap := false
		for _, r := range n.Rounds {
			overlap = overlap || len(r.Procs) > 1
		}
		for i := 0; overlap && i < 20 && time.Now().Before(end); i++ {
			m := n.clone()
			m.Explicit = false
			x := rng.New(rng.Mix(c.Seed, uint64(i)))
			for _, r := range m.Rounds {
				r.Policy.Seed = x.Uint64()
			}
			if o := Run(m, Options{}); o.V != nil && o.V.Class == bo.V.Class {
				m.Explicit = true
				best, bo = m, o
				return true
			}
		}
		return false
	}
	for again := true; again && time.Now().Before(end); {
		again = false
		for i := len(best.Rounds) - 1; i >= 0; i-- {
			if len(best.Rounds) > 1 {
				n := best.clone()
				n.Rounds = append(n.Rounds[:i], n.Rounds[i+1:]...)
				again = try(n) || again
			}
		}
		for i := range best.Rounds {
			for k := len(best.Rounds[i].Procs) - 1; k >= 0; k-- {
				if len(best.Rounds[i].Procs) > 1 {
					n := best.clone()
					n.Rounds[i].Procs = append(n.Rounds[i].Procs[:k], n.Rounds[i].Procs[k+1:]...)
					again = try(n) || again
				}
			}
			for k := range best.Rounds[i].Procs {
				for f := len(best.Rounds[i].Procs[k].Faults) - 1; f >= 0; f-- {
					n := best.clone()
					p := n.Rounds[i].Procs[k]
					p.Faults = append(p.Faults[:f], p.Faults[f+1:]...)
					again = try(n) || again
				}
			}
			if len(best.Rounds[i].Edits) > 0 {
				n := best.clone()
				n.Rounds[i].Edits = nil
				again = try(n) || again
			}
			if best.Rounds[i].Free >= 0 {
				n := best.clone()
				n.Rounds[i].Free = -1
				again = try(n) || again
			}
		}
		if best.Chunk > 0 {
			n := best.clone()
			n.Chunk = 0
			again = try(n) || again
		}
		if best.Order > 0 {
			n := best.clone()
			n.Order = 0
			again = try(n) || again
		}
		// files, in halving groups
		for size := max(1, len(best.Files)/2); ; size /= 2 {
			for i := len(best.Files) - size; i >= 0; i -= size {
				if i+size > len(best.Files) {
					continue
				}
				n := best.clone()
				n.Files = append(n.Files[:i], n.Files[i+size:]...)
				if n.rooted() {
					again = try(n) || again
				}
			}
			if size == 1 {
				break
			}
		}
		for i := range best.Files {
			for len(best.Files[i].Data) > 0 {
				n := best.clone()
				n.Files[i].Data = n.Files[i].Data[:len(n.Files[i].Data)/2]
				if !try(n) {
					break
				}
				again = true
			}
		}
	}
	return best, bo
}

// rooted reports whether every process has a directory to start in and its
// target is there.
func (c *Case) rooted() bool {
	dirs := map[string]bool{}
	for _, f := range c.Files {
		if f.Dir {
			dirs[f.Path] = true
		}
	}
	for _, r := range c.Rounds {
		for _, p := range r.Procs {
			if !dirs[p.Cwd] || p.Target != "" && !dirs[p.Target] {
				return false
			}
		}
	}
	return true
}

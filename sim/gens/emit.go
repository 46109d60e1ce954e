package gens

import (
	"fmt"

	"crunchsim/rng"
	"crunchsim/rt"
	"crunchsim/simos"
)

// Emitted is what simulated runs over the real templates produce.
type Emitted struct {
	Out      map[string]string // output name -> contents, of the run chosen
	Seed     uint64            // of that run
	Runs     int
	Variants int // different sets of outputs seen
	Why      string
}

// Emit regenerates the real templates under n seeds (directory and map orders,
// sizes of transfers). If runs come to different outputs it prefers ones that
// differ from prefer, which is what is checked in.
func Emit(seed uint64, n int, prefer map[string]string) *Emitted {
	e := &Emitted{}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		s := rng.CaseSeed("C18", seed, i)
		r := rng.New(s)
		w := simos.NewWorld()
		w.Put("/work/v3", nil, true)
		w.Put("/tmp", nil, true)
		for name, d := range Real {
			w.Put("/work/v3/"+name, []byte(d), false)
		}
		if i%2 == 1 { // over what is checked in
			for name, d := range prefer {
				w.Put("/work/v3/"+name, []byte(d), false)
			}
		}
		p := &simos.Proc{Cwd: w.Lookup("/work/v3"), Args: []string{"../generation/generation", "-generation", "complex"}}
		rt.KeyOrder = nil
		if i > 0 {
			w.DirOrder, rt.KeyOrder = perm(r), perm(r)
		}
		sim := rt.NewSim(&rt.RandomWalk{R: r, P: 0.1}, cleanSteps)
		sim.NsPerStep, sim.Seed = rt.NsFor(s), s
		sim.Spawn("regeneration", func() { w.Start(p, Main) })
		sim.Run()
		rt.KeyOrder = nil
		e.Runs++
		if !p.Exited || p.Code != 0 {
			e.Seed = s
			e.Why = fmt.Sprintf("the generator does not succeed on the checked-in templates: exit status %d, printing %s", p.Code, excerpt(tail(p.Out.String())))
			return e
		}
		snap := w.Snapshot()
		out, key, same := map[string]string{}, "", true
		for _, name := range sorted(Real) {
			o := OutputName(name)
			d, ok := snap["/work/v3/"+o]
			if !ok {
				e.Seed = s
				e.Why = fmt.Sprintf("the generator leaves no %s for the checked-in template %s", o, name)
				return e
			}
			out[o] = d
			key += fmt.Sprintf("%s %d %s", o, len(d), d)
			same = same && d == prefer[o]
		}
		if !seen[key] {
			seen[key] = true
			e.Variants++
			if e.Out == nil || !same {
				e.Out, e.Seed = out, s
			}
		}
	}
	return e
}

package rt

import "math/rand"

// RandomWalk switches with probability P at each point.
type RandomWalk struct {
	R *rand.Rand
	P float64
}

// Pick implements Policy.
func (w *RandomWalk) Pick(s *Sim, cur *Task, run []*Task) *Task {
	if cur != nil && contains(run, cur) && w.R.Float64() >= w.P {
		return cur
	}
	return run[w.R.Intn(len(run))]
}

// PCT runs the task of highest priority; at a few random steps the running
// task drops to the lowest priority (probabilistic concurrency testing).
type PCT struct {
	R      *rand.Rand
	Change map[int]bool
	prio   map[int]float64
	low    float64
}

// NewPCT makes a PCT policy with d change points within the first k steps.
func NewPCT(r *rand.Rand, d, k int) *PCT {
	p := &PCT{R: r, Change: map[int]bool{}, prio: map[int]float64{}}
	for i := 0; i < d; i++ {
		p.Change[1+r.Intn(k)] = true
	}
	return p
}

// Pick implements Policy.
func (p *PCT) Pick(s *Sim, cur *Task, run []*Task) *Task {
	for _, t := range s.Tasks {
		if _, ok := p.prio[t.ID]; !ok {
			p.prio[t.ID] = 1 + p.R.Float64()
		}
	}
	if cur != nil && p.Change[s.Step] {
		p.low--
		p.prio[cur.ID] = p.low
	}
	best := run[0]
	for _, t := range run[1:] {
		if p.prio[t.ID] > p.prio[best.ID] {
			best = t
		}
	}
	return best
}

// Burst runs one task for a random quantum, then another.
type Burst struct {
	R    *rand.Rand
	Mean int
	left int
}

// Pick implements Policy.
func (b *Burst) Pick(s *Sim, cur *Task, run []*Task) *Task {
	if cur != nil && b.left > 0 && contains(run, cur) {
		b.left--
		return cur
	}
	b.left = b.R.Intn(2*b.Mean + 1)
	return run[b.R.Intn(len(run))]
}

// Replay follows recorded switches; where the record has nothing to say it
// keeps the running task, or takes the lowest runnable id.
type Replay struct {
	Switches []Switch
	i        int
}

// Pick implements Policy.
func (r *Replay) Pick(s *Sim, cur *Task, run []*Task) *Task {
	for r.i < len(r.Switches) && r.Switches[r.i].Step < s.Step {
		r.i++
	}
	if r.i < len(r.Switches) && r.Switches[r.i].Step == s.Step {
		want := r.Switches[r.i].Task
		r.i++
		for _, t := range run {
			if t.ID == want {
				return t
			}
		}
	}
	if cur != nil && contains(run, cur) {
		return cur
	}
	return run[0]
}

func contains(run []*Task, t *Task) bool {
	for _, x := range run {
		if x == t {
			return true
		}
	}
	return false
}

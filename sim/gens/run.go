package gens

import (
	"fmt"
	"hash/fnv"
	"path"
	"sort"
	"strings"
	"time"

	"crunchsim/rng"
	"crunchsim/rt"
	"crunchsim/simos"
)

// Main is the program under test; the command sets it.
var Main func()

// Clean is what a fault-free run over the same templates in a directory without
// outputs produces.
type Clean struct {
	OK    bool
	Why   string
	Out   map[string]string // output name -> contents
	Lines map[string]bool   // what it prints
	Calls int
	Text  string
}

var (
	lastCleanKey string
	lastClean    *Clean
)

const cleanSteps = 2_000_000

// CleanRun runs the program over the templates alone.
func CleanRun(tm map[string]string) *Clean {
	var kb strings.Builder
	for _, n := range sorted(tm) {
		fmt.Fprintf(&kb, "%d %s %d %s", len(n), n, len(tm[n]), tm[n])
	}
	key := kb.String()
	if lastClean != nil && key == lastCleanKey {
		return lastClean
	}
	w := simos.NewWorld()
	w.Put("/clean/dir", nil, true)
	w.Put("/tmp", nil, true)
	for n, d := range tm {
		w.Put("/clean/dir/"+n, []byte(d), false)
	}
	p := &simos.Proc{Cwd: w.Lookup("/clean"), Args: []string{"generation", "-generation", "complex", "-directory", "/clean/dir"}}
	rt.KeyOrder = nil
	rt.TickLimit = tickLimit(len(key))
	sim := rt.NewSim(&rt.Replay{}, cleanSteps)
	sim.Spawn("clean run", func() { w.Start(p, Main) })
	sim.Run()
	cl := &Clean{Out: map[string]string{}, Lines: map[string]bool{}, Calls: p.Calls, Text: p.Out.String()}
	for _, l := range strings.Split(cl.Text, "\n") {
		cl.Lines[l] = true
	}
	switch {
	case sim.Deadlock:
		cl.Why = "blocks: " + strings.Join(sim.Blocked, "; ")
	case sim.StepLimit:
		cl.Why = "does not end"
	case !p.Exited:
		cl.Why = "does not end"
	case p.Code != 0:
		cl.Why = fmt.Sprintf("exits with status %d, printing %s", p.Code, excerpt(tail(cl.Text)))
	default:
		cl.OK = true
		snap := w.Snapshot()
		for _, n := range sorted(tm) {
			o := OutputName(n)
			d, ok := snap["/clean/dir/"+o]
			if !ok {
				cl.OK, cl.Why = false, fmt.Sprintf("exits with status 0 and leaves no %s for template %s", o, n)
				break
			}
			cl.Out[o] = d
		}
	}
	lastCleanKey, lastClean = key, cl
	return cl
}

// tickLimit bounds the loop iterations and calls between two system calls.
// Ordinary runs need about 1,000; a generator that looked at its files byte by
// byte would need a few for each byte.
func tickLimit(bytes int) int { return 20_000 + 8*bytes }

func tail(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	return l[len(l)-1]
}

// Options tune a run.
type Options struct{ Trace bool }

type judge struct {
	c *Case
	o *Outcome
}

func (j *judge) fail(class, f string, a ...any) bool {
	if j.o.V == nil {
		j.o.V = &Violation{class, fmt.Sprintf(f, a...)}
	}
	return true
}

func perm(x interface{ Perm(int) []int }) func(n int) []int { return x.Perm }

// Run executes a case and judges it.
func Run(c *Case, opt Options) *Outcome {
	o := &Outcome{Kills: map[string]int{}, Errors: map[string]int{}, Syscalls: map[string]int{}, ExitCodes: map[int]int{}}
	j := &judge{c, o}
	w := simos.NewWorld()
	put := func(f File) {
		if f.Gone {
			w.Drop(f.Path)
			return
		}
		w.Put(f.Path, f.Data, f.Dir).SetMtime(time.Duration(f.Mtime) * time.Second)
	}
	w.Put("/tmp", nil, true)
	for _, f := range c.Files {
		put(f)
	}
	if opt.Trace {
		w.Trace = func(f string, a ...any) { o.Log = append(o.Log, fmt.Sprintf(f, a...)) }
	}
	h := fnv.New64a()
	sched := fnv.New64a()
	r := rng.New(c.Order)
	for ri, rd := range c.Rounds {
		for _, f := range rd.Edits {
			put(f)
		}
		before := w.Snapshot()
		// the clean runs come first: the orders below are this round's own
		cleans := make([]*Clean, len(rd.Procs))
		for i, p := range rd.Procs {
			if p.Target != "" {
				cleans[i] = CleanRun(templates(before, p.Target))
			}
		}
		w.Free = rd.Free
		if c.Order != 0 {
			w.DirOrder, rt.KeyOrder = perm(r), perm(r)
		} else {
			w.DirOrder, rt.KeyOrder = nil, nil
		}
		w.Chunk = nil
		// what the runs of this round may reasonably move and call
		bytes, files := 0, 0
		for _, d := range before {
			bytes += len(d)
			files++
		}
		calls := 100 + 4*files
		for _, cl := range cleans {
			if cl != nil && cl.OK {
				calls += cl.Calls
				for _, d := range cl.Out {
					bytes += len(d)
				}
			}
		}
		if c.Chunk > 0 {
			chunk := max(c.Chunk, bytes/400)
			w.Chunk = func(n int) int { return 1 + r.Intn(min(n, chunk)) }
			calls += 4 * bytes / chunk
		}
		sim := rt.NewSim(rd.policy(c.Explicit), 100_000+(200*calls+8*bytes)*len(rd.Procs))
		sim.NsPerStep, sim.Seed = c.ns(), c.Seed+uint64(ri)
		rt.TickLimit = tickLimit(bytes)
		w.Begin()
		var ps []*simos.Proc
		for i, p := range rd.Procs {
			cwd := w.Lookup(p.Cwd)
			if cwd == nil {
				j.fail("harness", "no directory %s", p.Cwd)
				return o
			}
			sp := &simos.Proc{Cwd: cwd, Args: p.Args, Faults: p.Faults}
			ps = append(ps, sp)
			sim.Spawn(fmt.Sprintf("process %d", i), func() { w.Start(sp, Main) })
		}
		if opt.Trace {
			o.Log = append(o.Log, fmt.Sprintf("-- round %d", ri))
		}
		sim.Run()
		rt.KeyOrder = nil
		rd.Switches = sim.Switches
		after := w.Snapshot()

		o.Steps += sim.Step
		o.Ns += sim.Clock()
		o.Share = max(o.Share, float64(sim.Step)/float64(sim.MaxSteps))
		o.Ticks = max(o.Ticks, float64(sim.MaxTicks)/float64(rt.TickLimit))
		o.Procs += len(ps)
		if len(ps) > 1 {
			o.Overlaps++
			o.Switches += len(sim.Switches)
		}
		fmt.Fprintln(h, ri, sim.SchedHash())
		fmt.Fprintln(sched, sim.SchedHash())
		for i, p := range ps {
			if rd.Procs[i].invalid() {
				o.Invalid++
			}
			fmt.Fprintln(h, p.Calls, p.Exited, p.Code, p.Struck)
			for _, s := range p.Struck {
				switch {
				case s.Err == "killed":
					o.Kills[s.Op]++
				case s.Err == "stopped":
					o.Stops++
				case s.Planned == "disk full":
					o.DiskFull++
				case s.Injected:
					o.Errors[s.Op]++
				}
			}
			if p.Exited {
				o.ExitCodes[p.Code]++
			}
			if opt.Trace {
				for _, l := range strings.Split(strings.TrimSpace(p.Out.String()), "\n") {
					o.Log = append(o.Log, fmt.Sprintf("process %d printed: %s", i, l))
				}
				switch {
				case p.Dead:
					o.Log = append(o.Log, fmt.Sprintf("process %d was killed", i))
				case p.Exited:
					o.Log = append(o.Log, fmt.Sprintf("process %d exited with status %d", i, p.Code))
				default:
					o.Log = append(o.Log, fmt.Sprintf("process %d did not end", i))
				}
			}
		}
		for _, f := range sorted(after) {
			fmt.Fprintln(h, f, len(after[f]))
		}

		bad := false
		switch c.Property {
		case "C12":
			if ri == len(c.Rounds)-1 {
				bad = j.converged(rd, ps, sim, cleans, before, after)
			}
		case "C13":
			if len(ps) == 1 {
				bad = j.honest(rd.Procs[0], ps[0], sim, cleans[0], before, after)
			}
		case "C14":
			bad = j.contained(rd, ri, before, after)
		case "C22":
			bad = j.ended(rd, ps, sim)
		default:
			bad = j.fail("harness", "unknown property %q", c.Property)
		}
		if bad {
			break
		}
	}
	for s, n := range w.Syscalls {
		o.Syscalls[s] += n
	}
	o.Hash = h.Sum64()
	o.Sched = sched.Sum64()
	return o
}

// converged: C12.
func (j *judge) converged(rd *Round, ps []*simos.Proc, sim *rt.Sim, cleans []*Clean, before, after map[string]string) bool {
	for _, p := range rd.Procs {
		if p.invalid() || len(p.Faults) > 0 || rd.Free >= 0 {
			return false // not a round the property speaks of
		}
	}
	for i := range ps {
		if !cleans[i].OK {
			return j.fail("clean", "a run that meets no failure, over templates in a directory without outputs, %s", cleans[i].Why)
		}
	}
	if sim.Deadlock {
		return j.fail("ends", "runs that meet no failure block: %s", strings.Join(sim.Blocked, "; "))
	}
	j.o.Judged++
	for i, p := range ps {
		if !p.Exited {
			return j.fail("ends", "process %d meets no failure and does not end", i)
		}
		if p.Code != 0 {
			return j.fail("status", "process %d meets no failure and exits with status %d: %s", i, p.Code, tail(p.Out.String()))
		}
	}
	for i, p := range rd.Procs {
		for _, o := range sorted(cleans[i].Out) {
			want := cleans[i].Out[o]
			at := p.Target + "/" + o
			got, ok := after[at]
			if !ok {
				return j.fail("output", "after process %d ended successfully there is no %s", i, at)
			}
			if got != want {
				was := "there was no such file"
				if b, ok := before[at]; ok {
					was = fmt.Sprintf("it held %d bytes", len(b))
				}
				return j.fail("output", "after process %d ended successfully %s (%d bytes) differs from the clean run's (%d bytes) %s; before, %s", i, at, len(got), len(want), where(got, want), was)
			}
		}
	}
	return false
}

func where(a, b string) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("from byte %d on", i)
		}
	}
	return fmt.Sprintf("from byte %d on", min(len(a), len(b)))
}

// honest: C13.
func (j *judge) honest(spec *Proc, p *simos.Proc, sim *rt.Sim, cl *Clean, before, after map[string]string) bool {
	if sim.Deadlock {
		return j.fail("ends", "the run blocks: %s", strings.Join(sim.Blocked, "; "))
	}
	if !p.Exited && !p.Dead {
		return j.fail("ends", "the run does not end")
	}
	if cl != nil && !cl.OK {
		// nothing to compare with; C12 speaks of this
		j.o.Skipped++
		return false
	}
	var tm map[string]string
	outs := map[string]string{} // path of the output -> template
	if spec.Target != "" {
		tm = templates(before, spec.Target)
		for n := range tm {
			outs[spec.Target+"/"+OutputName(n)] = n
		}
	}
	failed := map[string]string{}   // template -> what failed for it
	readFail := map[string]string{} // template -> what failed while reading it
	var why []string
	listing := ""
	for _, s := range p.Struck {
		if s.Err == "killed" || s.Err == "stopped" {
			continue
		}
		n := path.Base(s.Path)
		dir := path.Dir(s.Path)
		_, isTm := tm[n]
		isTm = isTm && dir == spec.Target
		_, isOut := outs[s.Path]
		isDir := s.Path == spec.Target
		switch s.Op {
		case "open":
			switch {
			case s.Writable && isOut:
				if s.Injected || after[s.Path+"/"] == "" && has(after, s.Path+"/") {
					failed[outs[s.Path]] = s.String()
					why = append(why, s.String())
				}
			case !s.Writable && isTm && s.Injected:
				readFail[n], failed[n] = s.String(), s.String()
				why = append(why, s.String())
			case !s.Writable && isDir && s.Injected:
				listing = s.String()
				why = append(why, s.String())
			}
		case "readdir", "chdir":
			if isDir && s.Injected {
				listing = s.String()
				why = append(why, s.String())
			}
		case "read":
			if isTm && s.Injected {
				readFail[n], failed[n] = s.String(), s.String()
				why = append(why, s.String())
			}
		case "write", "truncate", "rename", "close":
			if s.Writable && s.Injected {
				why = append(why, s.String())
				if isOut {
					failed[outs[s.Path]] = s.String()
				} else {
					// a file of the program's own; which output it was for is
					// not known
					for t := range tm {
						failed[t] = s.String()
					}
				}
			}
		}
	}
	if spec.Target == "" {
		why = append(why, "the arguments choose no directory")
	}
	if spec.BadMode {
		why = append(why, "the arguments name no valid generation mode")
	}
	if p.Exited {
		j.o.Judged++
		if len(why) > 0 {
			if p.Code == 0 {
				return j.fail("status", "%s, yet the run exits with status 0", why[0])
			}
			said := false
			for _, l := range strings.Split(p.Out.String(), "\n") {
				if strings.TrimSpace(l) != "" && (cl == nil || !cl.Lines[l]) {
					said = true
				}
			}
			if !said {
				return j.fail("diagnostic", "%s, and the run exits with status %d without a diagnostic", why[0], p.Code)
			}
		}
	}
	if cl == nil {
		return false
	}
	for _, at := range sorted(outs) {
		n := outs[at]
		want := cl.Out[path.Base(at)]
		got, ok := after[at]
		old, was := before[at]
		same := ok == was && got == old
		right := ok && got == want
		switch {
		case p.Exited && p.Code == 0 && !right:
			return j.fail("output", "the run exits with status 0 and %s is not what its template gives (%s)", at, diff(got, ok, want))
		case readFail[n] != "" && !same && !right:
			return j.fail("partial", "%s, and %s has been given contents its complete template does not give (%s)", readFail[n], at, diff(got, ok, want))
		case p.Exited && failed[n] == "" && !same && !right:
			x := "nothing failed"
			if len(why) > 0 {
				x = why[0]
			}
			return j.fail("spread", "%s; nothing failed for template %s, yet %s is neither untouched nor right (%s)", x, n, at, diff(got, ok, want))
		}
	}
	_ = listing
	return false
}

func has(m map[string]string, k string) bool { _, ok := m[k]; return ok }

func diff(got string, ok bool, want string) string {
	if !ok {
		return "missing"
	}
	return fmt.Sprintf("%d bytes, right are %d, differs %s", len(got), len(want), where(got, want))
}

// ended: C22.
func (j *judge) ended(rd *Round, ps []*simos.Proc, sim *rt.Sim) bool {
	j.o.Judged++
	var alive []string
	for i, p := range ps {
		if !p.Exited && !p.Dead {
			alive = append(alive, fmt.Sprintf("process %d (%d system calls made)", i, p.Calls))
		}
	}
	switch {
	case sim.Deadlock:
		return j.fail("blocks", "%s for ever: %s", strings.Join(alive, ", "), strings.Join(sim.Blocked, "; "))
	case len(alive) > 0:
		return j.fail("ends", "after %d steps (%s of simulated time) %s: no end", sim.Step, time.Duration(sim.Clock()), strings.Join(alive, ", "))
	}
	return false
}

// contained: C14.
func (j *judge) contained(rd *Round, ri int, before, after map[string]string) bool {
	j.o.Judged++
	allowed := map[string]bool{}
	for _, p := range rd.Procs {
		if p.Target == "" {
			continue
		}
		for n := range templates(before, p.Target) {
			// the output of __x.go is a template for a run that starts later
			for o := n; ; {
				if o = OutputName(o); allowed[p.Target+"/"+o] {
					break
				}
				if allowed[p.Target+"/"+o] = true; !IsTemplate(o) || len(rd.Procs) == 1 {
					break
				}
			}
		}
	}
	var all []string
	seen := map[string]bool{}
	for _, m := range []map[string]string{before, after} {
		for f := range m {
			if !seen[f] {
				seen[f] = true
				all = append(all, f)
			}
		}
	}
	sort.Strings(all)
	for _, f := range all {
		if allowed[f] {
			continue
		}
		b, was := before[f]
		a, is := after[f]
		switch {
		case was && !is:
			return j.fail("removed", "round %d removed %s", ri, f)
		case !was && is:
			return j.fail("created", "round %d created %s", ri, f)
		case a != b:
			return j.fail("changed", "round %d changed %s (%d bytes, were %d, differs %s)", ri, f, len(a), len(b), where(a, b))
		}
	}
	return false
}

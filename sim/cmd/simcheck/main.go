// Command simcheck decides the buffer properties by seeded search over
// simulated executions.
//
//	simcheck -prop C01 -seed 1 -tier quick -runs N -out DIR       search
//	simcheck -replay FILE                                         replay
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"crunchsim/buf"
	"crunchsim/evid"
	"crunchsim/rng"
	"crunchsim/rt"
	"crunchsim/scen"
)

var (
	prop    = flag.String("prop", "", "property")
	seed    = flag.Uint64("seed", 1, "base seed")
	tier    = flag.String("tier", "quick", "tier")
	runs    = flag.Int("runs", 0, "number of simulated runs (0: by tier)")
	workers = flag.Int("workers", 8, "worker processes")
	worker  = flag.Int("worker", -1, "worker index (internal)")
	limit   = flag.Duration("limit", 10*time.Minute, "wall-clock limit")
	verif   = flag.String("verif", "/verif", "where evidence and replays go")
	replay  = flag.String("replay", "", "replay a violation file")
	hashes  = flag.Bool("hashes", false, "print one line per run (determinism check)")
	prof    = flag.String("cpuprofile", "", "profile")
	first   = flag.Int("first", 0, "first run index")
	tdir    = flag.String("templates", "", "directory with the real templates (C18)")
	info    = flag.String("info", "", "description of the regeneration (C18)")
	static  = flag.String("static", "", "the stage of the regeneration that failed (C18)")
	message = flag.String("message", "", "how it failed")
)

// Replay is the file a violation is reported with.
type Replay struct {
	Property  string          `json:"property"`
	BaseSeed  uint64          `json:"base_seed"`
	Run       int             `json:"run"`
	Seed      uint64          `json:"seed"`
	Violation *scen.Violation `json:"violation"`
	Case      *scen.Case      `json:"case"`
	Program   []string        `json:"program"`
	Trace     []string        `json:"trace"`
	Original  *scen.Case      `json:"original"`
	// Stage: the violation is not one of a run, but of making the regenerated
	// sources: "generate", "build" or "methods".
	Stage string `json:"stage,omitempty"`
}

// Report is what a worker hands to its parent.
type Report struct {
	Runs, Steps, Calls, Rejected, Faults, Stalls, Panics, Holds, Crashes, Skipped int
	Switches, LinStates, LinUndecided                                             int
	Deadlocks                                                                     int
	Ns                                                                            int64
	MaxShare                                                                      float64
	Methods                                                                       map[string]int
	FaultSites                                                                    map[string]int
	Policies                                                                      map[string]int
	Hashes                                                                        []uint64
	Preempt                                                                       []uint64
	Replay                                                                        *Replay
	Timeout                                                                       bool
	Samples                                                                       []string
}

// quick and thorough run counts per property
var counts = map[string][2]int{
	"C01": {2_000_000, 16_000_000},
	"C02": {2_000_000, 16_000_000},
	"C03": {2_000_000, 16_000_000},
	"C04": {2_000_000, 16_000_000},
	"C05": {2_000_000, 16_000_000},
	"C06": {2_000_000, 16_000_000},
	"C07": {1_200_000, 10_000_000},
	"C08": {900_000, 8_000_000},
	"C09": {1_800_000, 12_000_000},
	"C10": {1_200_000, 10_000_000},
	"C11": {1_500_000, 12_000_000},
	"C18": {450_000, 4_000_000},
	"C21": {900_000, 10_000_000},
	"C20": {1_400_000, 12_000_000},
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "simcheck: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	flag.Parse()
	if *static == "" && *worker < 0 && !*hashes {
		if m := methods(); m != "" {
			*static, *message = "methods", m
		}
	}
	if *static != "" {
		doStatic()
		return
	}
	if *replay != "" {
		doReplay()
		return
	}
	if *runs == 0 {
		c, ok := counts[*prop]
		if !ok {
			die("unknown property %q", *prop)
		}
		*runs = c[0]
		if *tier == "thorough" {
			*runs = c[1]
		}
	}
	if *worker >= 0 {
		work()
		return
	}
	parent()
}

func caseSeed(i int) uint64 { return rng.CaseSeed(*prop, *seed, i) }

func work() {
	debug.SetGCPercent(-1)
	runtime.GOMAXPROCS(1)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	rep := &Report{Methods: map[string]int{}, FaultSites: map[string]int{}, Policies: map[string]int{}}
	hs, ps := map[uint64]struct{}{}, map[uint64]struct{}{}
	start := time.Now()
	var ms runtime.MemStats
	for i := *first + *worker; i < *first+*runs; i += *workers {
		if rep.Runs%64 == 0 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 512<<20 {
				runtime.GC()
			}
			if time.Since(start) > *limit {
				rep.Timeout = true
				break
			}
		}
		s := caseSeed(i)
		c, opt := scen.Generate(*prop, s)
		o := scen.Run(c, opt)
		rep.Runs++
		rep.Steps += o.Steps
		rep.Ns += o.Ns
		rep.Calls += o.Calls
		rep.Rejected += o.Rejected
		rep.Faults += o.Faults
		rep.Stalls += o.Stalls
		rep.Panics += o.Panics
		rep.Holds += o.Holds
		rep.Crashes += o.Crashes
		rep.Skipped += o.Skipped
		rep.Switches += len(o.Switches)
		rep.LinStates += o.LinStates
		rep.MaxShare = max(rep.MaxShare, float64(o.Steps)/float64(c.MaxSteps))
		rep.LinUndecided += o.LinUndecided
		if o.Deadlock {
			rep.Deadlocks++
		}
		rep.Policies[c.Policy.Name]++
		for m, n := range o.Methods {
			rep.Methods[m] += n
		}
		for _, f := range o.FaultSites {
			rep.FaultSites[rt.SiteName(f)]++
		}
		if len(hs) < 400_000 {
			hs[o.Hash] = struct{}{}
		}
		for _, p := range o.Preempts {
			ps[p] = struct{}{}
		}
		if *hashes {
			v := "ok"
			if o.V != nil {
				v = o.V.Class + ": " + o.V.Msg
			}
			fmt.Printf("%d %016x %d %d %s\n", i, o.Hash, o.Steps, o.Calls, v)
		}
		if *worker == 0 && len(rep.Samples) < 3 && o.Calls > 3 {
			rep.Samples = append(rep.Samples, fmt.Sprintf("seed %#x policy %s: %s", s, c.Policy.Name, strings.ReplaceAll(c.Describe(), "\n", "; ")))
		}
		if o.V != nil && !*hashes {
			runtime.GC()
			mc, mo := scen.Minimize(c, o, opt, 12*time.Second)
			opt.Trace = true
			to := scen.Run(mc, opt)
			if to.V == nil {
				to = mo
			}
			rep.Replay = &Replay{Property: *prop, BaseSeed: *seed, Run: i, Seed: s, Violation: to.V, Case: mc, Program: strings.Split(strings.TrimSpace(mc.Describe()), "\n"), Trace: to.Log, Original: c}
			break
		}
	}
	for h := range hs {
		rep.Hashes = append(rep.Hashes, h)
	}
	for h := range ps {
		rep.Preempt = append(rep.Preempt, h)
	}
	if !*hashes {
		json.NewEncoder(os.Stdout).Encode(rep)
	}
}

func parent() {
	start := time.Now()
	exe, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	reps := make([]*Report, *workers)
	errs := make(chan error, *workers)
	for w := 0; w < *workers; w++ {
		w := w
		go func() {
			cmd := exec.Command(exe, "-prop", *prop, "-seed", fmt.Sprint(*seed), "-tier", *tier, "-runs", fmt.Sprint(*runs), "-workers", fmt.Sprint(*workers), "-worker", fmt.Sprint(w), "-limit", limit.String(), "-first", fmt.Sprint(*first))
			cmd.Stderr = os.Stderr
			b, err := cmd.Output()
			if err == nil {
				reps[w] = new(Report)
				err = json.Unmarshal(b, reps[w])
			}
			errs <- err
		}()
	}
	var failed error
	for w := 0; w < *workers; w++ {
		if err := <-errs; err != nil {
			failed = err
		}
	}
	total := Report{Methods: map[string]int{}, FaultSites: map[string]int{}, Policies: map[string]int{}}
	hs, ps := map[uint64]struct{}{}, map[uint64]struct{}{}
	for _, r := range reps {
		if r == nil {
			continue
		}
		total.Runs += r.Runs
		total.Steps += r.Steps
		total.Ns += r.Ns
		total.Calls += r.Calls
		total.Rejected += r.Rejected
		total.Faults += r.Faults
		total.Stalls += r.Stalls
		total.Panics += r.Panics
		total.Holds += r.Holds
		total.Crashes += r.Crashes
		total.Skipped += r.Skipped
		total.Switches += r.Switches
		total.LinStates += r.LinStates
		total.MaxShare = max(total.MaxShare, r.MaxShare)
		total.LinUndecided += r.LinUndecided
		total.Deadlocks += r.Deadlocks
		total.Timeout = total.Timeout || r.Timeout
		total.Samples = append(total.Samples, r.Samples...)
		for m, n := range r.Methods {
			total.Methods[m] += n
		}
		for m, n := range r.FaultSites {
			total.FaultSites[m] += n
		}
		for m, n := range r.Policies {
			total.Policies[m] += n
		}
		for _, h := range r.Hashes {
			hs[h] = struct{}{}
		}
		for _, h := range r.Preempt {
			ps[h] = struct{}{}
		}
		if r.Replay != nil && (total.Replay == nil || r.Replay.Run < total.Replay.Run) {
			total.Replay = r.Replay
		}
	}
	wall := time.Since(start)
	viol, code := 0, 0
	if total.Replay != nil && total.Replay.Violation.Class == "harness" {
		die("run %d: %s", total.Replay.Run, total.Replay.Violation.Msg)
	}
	if total.Replay != nil {
		path := filepath.Join(*verif, "replays", fmt.Sprintf("%s-%d-%d.json", *prop, *seed, total.Replay.Run))
		os.MkdirAll(filepath.Dir(path), 0o755)
		b, _ := json.MarshalIndent(total.Replay, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			die("%v", err)
		}
		fmt.Printf("violation (%s): %s\n", total.Replay.Violation.Class, total.Replay.Violation.Msg)
		fmt.Println(strings.Join(total.Replay.Program, "\n"))
		fmt.Printf("seed %#x (run %d of base seed %d), %d scheduling decisions\n", total.Replay.Seed, total.Replay.Run, *seed, len(total.Replay.Case.Switches))
		// the replay must reproduce exactly, in a fresh process
		out, err := exec.Command(exe, "-templates", *tdir, "-replay", path).CombinedOutput()
		if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 {
			die("the replay file does not reproduce the violation: %v\n%s", err, out)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		viol = 1
		code = 1
	} else if failed != nil {
		die("a worker failed: %v", failed)
	}
	e := &evid.Evidence{Property: *prop, Tier: *tier, Seed: int64(*seed), Level: evid.Level(*prop), WallS: wall.Seconds(), Violations: viol}
	fillEvidence(e, &total, len(hs), len(ps), wall)
	if err := e.Write(filepath.Join(*verif, "evidence", *prop+".json")); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s: %d runs, %d calls, %d steps, %d distinct schedules in %.1fs\n", *prop, total.Runs, total.Calls, total.Steps, len(hs), wall.Seconds())
	os.Exit(code)
}

func fillEvidence(e *evid.Evidence, t *Report, distinct, preempts int, wall time.Duration) {
	top := func(m map[string]int) map[string]int { return m }
	var ms []string
	for m := range t.Methods {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	e.Coverage = map[string]any{
		"evaluations":             t.Runs,
		"distinct_nontrivial":     distinct,
		"rule":                    "one seed makes one case (programs, inputs, faults, schedule); one evaluation is one complete simulated execution; distinct counts different schedules, identified by the sequence of (step, task) switches taken (at most 400000 remembered per worker process)",
		"samples":                 t.Samples,
		"runs_and_seeds_per_hour": int(float64(t.Runs) / wall.Hours()),
		"simulated_time":          fmt.Sprintf("%.3f s; a scheduling point takes 50 ns to 1 ms by case, sleepers make the clock jump (the shipped code reads no clock)", float64(t.Ns)/1e9),
		"scheduling_steps":        t.Steps,
		"context_switches":        t.Switches,
		"calls":                   t.Calls,
		"rejected_calls":          t.Rejected,
		"faults_injected": map[string]int{
			"memory fault inside a call":                   t.Faults,
			"stalled task (scheduling points it was held)": t.Stalls,
			"caller panic inside a section":                t.Panics,
			"rejected (out of range) call":                 t.Rejected,
			"crash, the wrapped memory survives":           t.Crashes,
		},
		"fault_sites_struck":              len(t.FaultSites),
		"fault_sites":                     top(t.FaultSites),
		"caller_held_sections":            t.Holds,
		"calls_skipped_undefined":         t.Skipped,
		"lin_states_searched":             t.LinStates,
		"lin_histories_undecided":         t.LinUndecided,
		"simulated_seconds":               float64(t.Ns) / 1e9,
		"highest_share_of_the_step_bound": t.MaxShare,
		"distinct_preemptions":            preempts,
		"preemption_rule":                 "distinct (source site preempted at, task switched to) pairs",
		"methods_exercised":               len(ms),
		"method_calls":                    t.Methods,
		"policies":                        t.Policies,
		"stopped_by_time_limit":           t.Timeout,
		"real_components":                 []string{"every function of packages v1, v2 and v3, instrumented from /repo's working tree (hooks at memory accesses, nothing else changed)"},
		"stub_components":                 []string{"sync and sync/atomic (simulated, with happens-before tracking)", "the goroutine scheduler (seeded)", "the hardware memory fault (injected panic with the shape of a Go fault under debug.SetPanicOnFault)"},
	}
	if *info != "" {
		if b, err := os.ReadFile(*info); err == nil {
			e.Coverage["regeneration"] = json.RawMessage(b)
		}
		e.Coverage["methods_compared"] = methodCount
		e.Coverage["real_components"] = []string{"package v3 from /repo's working tree, checked in and regenerated, both instrumented", "generation/main.go and generation/complex.go, instrumented, for the regeneration"}
	}
	e.Assumptions = []string{
		"executions are sequentially consistent interleavings of the hooked memory accesses and synchronisation operations; races, where the property speaks of them, are detected by happens-before, not by weak-memory execution",
		"the instrumenter preserves behaviour (the repository's own tests pass on the instrumented packages)",
		"search is sampling: schedules and inputs not drawn are not covered",
	}
}

func doReplay() {
	debug.SetGCPercent(-1)
	b, err := os.ReadFile(*replay)
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	if r.Stage != "" {
		fmt.Println("no violation: the regeneration succeeds")
		return
	}
	opt := scen.OptionsFor(r.Property)
	opt.Trace = true
	o := scen.Run(r.Case, opt)
	fmt.Println(strings.TrimSpace(r.Case.Describe()))
	for _, l := range o.Log {
		fmt.Println(l)
	}
	if o.V == nil {
		fmt.Println("no violation")
		return
	}
	fmt.Printf("violation (%s): %s\n", o.V.Class, o.V.Msg)
	if r.Violation.Class != o.V.Class || r.Violation.Msg != o.V.Msg {
		fmt.Printf("note: recorded as (%s): %s\n", r.Violation.Class, r.Violation.Msg)
		os.Exit(4)
	}
	fmt.Println("reproduced exactly")
	os.Exit(1)
}

var (
	magic       = regexp.MustCompile(`(?m)^//generator:complex[ \t]+(\w+)[ \t]+(\w+)[ \t]+(\w+)[ \t]+(\w+)[ \t]+(\w+)[ \t]*$`)
	methodCount int
)

// methods compares the method sets of the checked-in and the regenerated types,
// and both with the template lines.
func methods() string {
	diff, ok := buf.Twins()
	if !ok {
		return ""
	}
	l, _ := filepath.Glob(filepath.Join(*tdir, "_*.go"))
	sort.Strings(l)
	for _, f := range l {
		b, err := os.ReadFile(f)
		if err != nil {
			die("%v", err)
		}
		for _, m := range magic.FindAllStringSubmatch(string(b), -1) {
			k := buf.ByName["v3."+m[1]]
			if k == nil {
				diff = append(diff, fmt.Sprintf("%s: no type %s for the line %q", filepath.Base(f), m[1], m[0]))
				continue
			}
			for _, next := range []bool{false, true} {
				op := &buf.Op{F: strings.ToLower(m[2]), Next: next, K: m[3], Big: m[5] == "BE"}
				fmt.Sscan(m[4], &op.Size)
				op.Size /= 8
				methodCount++
				if !k.Has(op) {
					diff = append(diff, fmt.Sprintf("%s: no method for the line %q (Next: %v)", filepath.Base(f), m[0], next))
				}
			}
		}
	}
	return strings.Join(diff, "; ")
}

// doStatic reports, or replays, a failure of the regeneration itself.
func doStatic() {
	v := &scen.Violation{Class: *static, Msg: *message}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			die("%v", err)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil {
			die("%v", err)
		}
		fmt.Printf("violation (%s): %s\n", v.Class, v.Msg)
		if r.Stage != *static || r.Violation.Msg != v.Msg {
			fmt.Printf("note: recorded as (%s): %s\n", r.Violation.Class, r.Violation.Msg)
			os.Exit(4)
		}
		fmt.Println("reproduced exactly")
		os.Exit(1)
	}
	path := filepath.Join(*verif, "replays", fmt.Sprintf("%s-%d-%s.json", *prop, *seed, *static))
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, _ := json.MarshalIndent(&Replay{Property: *prop, BaseSeed: *seed, Violation: v, Stage: *static}, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("violation (%s): %s\n", v.Class, v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	e := &evid.Evidence{Property: *prop, Tier: *tier, Seed: int64(*seed), Level: evid.Level(*prop), Violations: 1}
	e.Coverage = map[string]any{"evaluations": 1, "distinct_nontrivial": 1, "rule": "the regeneration failed at stage " + *static + "; no simulated runs were made", "samples": []string{*message}}
	e.Assumptions = []string{"the generator runs in the simulator, the Go compiler for real"}
	if err := e.Write(filepath.Join(*verif, "evidence", *prop+".json")); err != nil {
		die("%v", err)
	}
	os.Exit(1)
}

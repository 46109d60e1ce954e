// Command gencheck decides the code generator properties by seeded search over
// simulated executions of the generator.
//
//	gencheck -prop C12 -seed 1 -tier quick -templates DIR -verif DIR     search
//	gencheck -templates DIR -replay FILE                                 replay
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"crunchsim/evid"
	simmain "crunchsim/gen/generation"
	"crunchsim/gens"
	"crunchsim/rng"
	"crunchsim/rt"
)

var (
	prop    = flag.String("prop", "", "property")
	seed    = flag.Uint64("seed", 1, "base seed")
	tier    = flag.String("tier", "quick", "tier")
	runs    = flag.Int("runs", 0, "number of simulated runs (0: by tier)")
	workers = flag.Int("workers", 8, "worker processes")
	worker  = flag.Int("worker", -1, "worker index (internal)")
	limit   = flag.Duration("limit", 10*time.Minute, "wall-clock limit")
	verif   = flag.String("verif", "/verif", "where evidence and replays go")
	replay  = flag.String("replay", "", "replay a violation file")
	hashes  = flag.Bool("hashes", false, "print one line per run (determinism check)")
	prof    = flag.String("cpuprofile", "", "profile")
	first   = flag.Int("first", 0, "first run index")
	tdir    = flag.String("templates", "", "directory with the real templates")
	emit    = flag.String("emit", "", "regenerate the real templates into this directory (C18)")
	checked = flag.String("checked", "", "directory with the checked-in outputs (C18)")
)

// Replay is the file a violation is reported with.
type Replay struct {
	Property  string          `json:"property"`
	BaseSeed  uint64          `json:"base_seed"`
	Run       int             `json:"run"`
	Seed      uint64          `json:"seed"`
	Violation *gens.Violation `json:"violation"`
	Program   []string        `json:"program"`
	Trace     []string        `json:"trace"`
	Case      *gens.Case      `json:"case"`
	Original  *gens.Case      `json:"original"`
}

// Report is what a worker hands to its parent.
type Report struct {
	Runs, Steps, Procs, Overlaps, Switches, DiskFull, Stops, Judged, Skipped, Invalid, Chunked, Rounds int
	Ns                                                                                                 int64
	MaxShare, MaxTicks                                                                                 float64
	Kills, Errors, Syscalls                                                                            map[string]int
	Exits                                                                                              map[int]int
	Hashes, Scheds                                                                                     []uint64
	Replay                                                                                             *Replay
	Timeout                                                                                            bool
	Samples                                                                                            []string
}

func newReport() *Report {
	return &Report{Kills: map[string]int{}, Errors: map[string]int{}, Syscalls: map[string]int{}, Exits: map[int]int{}}
}

func add[K comparable](a, b map[K]int) {
	for k, n := range b {
		a[k] += n
	}
}

// quick and thorough run counts per property
var counts = map[string][2]int{
	"C12": {50_000, 600_000},
	"C13": {80_000, 800_000},
	"C14": {60_000, 800_000},
	"C22": {60_000, 800_000},
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "gencheck: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	flag.Parse()
	rt.TickLimit = 100_000_000
	gens.Main = simmain.Main
	l, _ := filepath.Glob(filepath.Join(*tdir, "_*.go"))
	for _, f := range l {
		if b, err := os.ReadFile(f); err == nil {
			gens.Real[filepath.Base(f)] = b
		}
	}
	if *emit != "" {
		doEmit()
		return
	}
	if *replay != "" {
		doReplay()
		return
	}
	if *runs == 0 {
		c, ok := counts[*prop]
		if !ok {
			die("unknown property %q", *prop)
		}
		*runs = c[0]
		if *tier == "thorough" {
			*runs = c[1]
		}
	}
	if *worker >= 0 {
		work()
		return
	}
	parent()
}

func work() {
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(1)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	rep := newReport()
	hs, ss := map[uint64]struct{}{}, map[uint64]struct{}{}
	start := time.Now()
	for i := *first + *worker; i < *first+*runs; i += *workers {
		if time.Since(start) > *limit {
			rep.Timeout = true
			break
		}
		s := rng.CaseSeed(*prop, *seed, i)
		c := gens.Generate(*prop, s)
		o := gens.Run(c, gens.Options{})
		rep.Runs++
		rep.Rounds += len(c.Rounds)
		rep.Steps += o.Steps
		rep.Ns += o.Ns
		rep.MaxShare, rep.MaxTicks = max(rep.MaxShare, o.Share), max(rep.MaxTicks, o.Ticks)
		rep.Procs += o.Procs
		rep.Overlaps += o.Overlaps
		rep.Switches += o.Switches
		rep.DiskFull += o.DiskFull
		rep.Stops += o.Stops
		rep.Judged += o.Judged
		rep.Skipped += o.Skipped
		rep.Invalid += o.Invalid
		if c.Chunk > 0 {
			rep.Chunked++
		}
		add(rep.Kills, o.Kills)
		add(rep.Errors, o.Errors)
		add(rep.Syscalls, o.Syscalls)
		add(rep.Exits, o.ExitCodes)
		hs[o.Hash] = struct{}{}
		if o.Overlaps > 0 {
			ss[o.Sched] = struct{}{}
		}
		if *hashes {
			v := "ok"
			if o.V != nil {
				v = o.V.Class + ": " + o.V.Msg
			}
			fmt.Printf("%d %016x %d %s\n", i, o.Hash, o.Steps, v)
			continue
		}
		if *worker == 0 && len(rep.Samples) < 3 && len(c.Rounds) > 1 {
			d := c.Describe()
			if k := strings.Index(d, "round 0"); k >= 0 {
				d = d[k:]
			}
			rep.Samples = append(rep.Samples, fmt.Sprintf("seed %#x, %d files: %s", s, len(c.Files), strings.ReplaceAll(d, "\n", "; ")))
		}
		if o.V != nil {
			mc, mo := gens.Minimize(c, o, 15*time.Second)
			to := gens.Run(mc, gens.Options{Trace: true})
			if to.V == nil {
				to = mo
			}
			rep.Replay = &Replay{Property: *prop, BaseSeed: *seed, Run: i, Seed: s, Violation: to.V, Case: mc, Program: strings.Split(strings.TrimSpace(mc.Describe()), "\n"), Trace: to.Log, Original: c}
			break
		}
	}
	for h := range hs {
		rep.Hashes = append(rep.Hashes, h)
	}
	for h := range ss {
		rep.Scheds = append(rep.Scheds, h)
	}
	if !*hashes {
		json.NewEncoder(os.Stdout).Encode(rep)
	}
}

func parent() {
	start := time.Now()
	exe, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	reps := make([]*Report, *workers)
	errs := make(chan error, *workers)
	for w := 0; w < *workers; w++ {
		go func() {
			cmd := exec.Command(exe, "-prop", *prop, "-seed", fmt.Sprint(*seed), "-tier", *tier, "-runs", fmt.Sprint(*runs), "-workers", fmt.Sprint(*workers), "-worker", fmt.Sprint(w), "-limit", limit.String(), "-first", fmt.Sprint(*first), "-templates", *tdir)
			cmd.Stderr = os.Stderr
			b, err := cmd.Output()
			if err == nil {
				reps[w] = new(Report)
				err = json.Unmarshal(b, reps[w])
			}
			errs <- err
		}()
	}
	var failed error
	for w := 0; w < *workers; w++ {
		if err := <-errs; err != nil {
			failed = err
		}
	}
	t := newReport()
	hs, ss := map[uint64]struct{}{}, map[uint64]struct{}{}
	for _, r := range reps {
		if r == nil {
			continue
		}
		t.Runs += r.Runs
		t.Rounds += r.Rounds
		t.Steps += r.Steps
		t.Ns += r.Ns
		t.MaxShare, t.MaxTicks = max(t.MaxShare, r.MaxShare), max(t.MaxTicks, r.MaxTicks)
		t.Procs += r.Procs
		t.Overlaps += r.Overlaps
		t.Switches += r.Switches
		t.DiskFull += r.DiskFull
		t.Stops += r.Stops
		t.Judged += r.Judged
		t.Skipped += r.Skipped
		t.Invalid += r.Invalid
		t.Chunked += r.Chunked
		t.Timeout = t.Timeout || r.Timeout
		t.Samples = append(t.Samples, r.Samples...)
		add(t.Kills, r.Kills)
		add(t.Errors, r.Errors)
		add(t.Syscalls, r.Syscalls)
		add(t.Exits, r.Exits)
		for _, h := range r.Hashes {
			hs[h] = struct{}{}
		}
		for _, h := range r.Scheds {
			ss[h] = struct{}{}
		}
		if r.Replay != nil && (t.Replay == nil || r.Replay.Run < t.Replay.Run) {
			t.Replay = r.Replay
		}
	}
	wall := time.Since(start)
	viol, code := 0, 0
	if t.Replay != nil && t.Replay.Violation.Class == "harness" {
		die("run %d: %s", t.Replay.Run, t.Replay.Violation.Msg)
	}
	if t.Replay != nil {
		path := filepath.Join(*verif, "replays", fmt.Sprintf("%s-%d-%d.json", *prop, *seed, t.Replay.Run))
		os.MkdirAll(filepath.Dir(path), 0o755)
		b, _ := json.MarshalIndent(t.Replay, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			die("%v", err)
		}
		fmt.Printf("violation (%s): %s\n", t.Replay.Violation.Class, t.Replay.Violation.Msg)
		fmt.Println(strings.Join(t.Replay.Program, "\n"))
		fmt.Printf("seed %#x (run %d of base seed %d)\n", t.Replay.Seed, t.Replay.Run, *seed)
		// the replay must reproduce exactly, in a fresh process
		out, err := exec.Command(exe, "-templates", *tdir, "-replay", path).CombinedOutput()
		if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 {
			die("the replay file does not reproduce the violation: %v\n%s", err, out)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		viol, code = 1, 1
	} else if failed != nil {
		die("a worker failed: %v", failed)
	}
	calls := 0
	for _, n := range t.Syscalls {
		calls += n
	}
	exits := map[string]int{}
	for k, n := range t.Exits {
		exits[fmt.Sprint(k)] = n
	}
	e := &evid.Evidence{Property: *prop, Tier: *tier, Seed: int64(*seed), Level: evid.Level(*prop), WallS: wall.Seconds(), Violations: viol}
	e.Coverage = map[string]any{
		"evaluations":                     t.Runs,
		"distinct_nontrivial":             len(hs),
		"rule":                            "one seed makes one case (file tree, leftovers, rounds of processes, faults, orders, schedule); one evaluation is one complete simulated history; distinct counts different (schedule, system call count, exit status, failures met, sizes of all files) histories",
		"samples":                         t.Samples,
		"runs_and_seeds_per_hour":         int(float64(t.Runs) / wall.Hours()),
		"simulated_time":                  fmt.Sprintf("%.3f s; a scheduling point takes 50 ns to 1 ms by case", float64(t.Ns)/1e9),
		"rounds":                          t.Rounds,
		"processes":                       t.Procs,
		"overlapping_rounds":              t.Overlaps,
		"overlap_switches":                t.Switches,
		"distinct_interleavings":          len(ss),
		"rounds_judged":                   t.Judged,
		"rounds_skipped":                  t.Skipped,
		"invalid_arguments":               t.Invalid,
		"runs_with_short_io":              t.Chunked,
		"scheduling_steps":                t.Steps,
		"simulated_seconds":               float64(t.Ns) / 1e9,
		"highest_share_of_the_step_bound": t.MaxShare,
		"highest_share_of_the_bound_between_system_calls": t.MaxTicks,
		"system_calls": t.Syscalls,
		"faults_injected": map[string]any{
			"failed system calls": t.Errors,
			"process killed at":   t.Kills,
			"disk full":           t.DiskFull,
			"process stopped":     t.Stops,
		},
		"exit_statuses":         exits,
		"stopped_by_time_limit": t.Timeout,
		"real_components":       []string{"generation/main.go and generation/complex.go, instrumented from /repo's working tree (system calls, flags, output, map ranges and globals redirected)", "github.com/dave/jennifer, regexp, io.ReadAll and the rest of the standard library"},
		"stub_components":       []string{"operating system: file tree, descriptors, working directory, exit status, process death (sim/simos)", "package flag's command line and the standard streams, one per simulated process", "the iteration order of maps (seeded)"},
	}
	e.Assumptions = []string{
		"the simulated file system behaves like a local POSIX one at the level of open, read, write, truncate, close, rename, remove, stat and readdir; a killed process loses nothing it wrote (no machine crash), symbolic links and permissions are not modelled",
		"template names beginning with two underscores are left out: their outputs are templates of the next run by the program's own naming rule",
		"search is sampling: histories not drawn are not covered",
	}
	if err := e.Write(filepath.Join(*verif, "evidence", *prop+".json")); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s: %d runs, %d processes, %d system calls, %d distinct histories in %.1fs\n", *prop, t.Runs, t.Procs, calls, len(hs), wall.Seconds())
	os.Exit(code)
}

func doReplay() {
	b, err := os.ReadFile(*replay)
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	o := gens.Run(r.Case, gens.Options{Trace: true})
	fmt.Println(strings.TrimSpace(r.Case.Describe()))
	for _, l := range o.Log {
		fmt.Println(l)
	}
	if o.V == nil {
		fmt.Println("no violation")
		return
	}
	fmt.Printf("violation (%s): %s\n", o.V.Class, o.V.Msg)
	if r.Violation.Class != o.V.Class || r.Violation.Msg != o.V.Msg {
		fmt.Printf("note: recorded as (%s): %s\n", r.Violation.Class, r.Violation.Msg)
		os.Exit(4)
	}
	fmt.Println("reproduced exactly")
	os.Exit(1)
}

// doEmit writes what the generator makes of the checked-in templates, and a
// description of the runs; exit status 1 and a message when it makes nothing.
func doEmit() {
	prefer := map[string]string{}
	for n := range gens.Real {
		if b, err := os.ReadFile(filepath.Join(*checked, gens.OutputName(n))); err == nil {
			prefer[gens.OutputName(n)] = string(b)
		}
	}
	e := gens.Emit(*seed, 64, prefer)
	if e.Why != "" {
		fmt.Println(e.Why)
		os.Exit(1)
	}
	same := 0
	for n, d := range e.Out {
		if d == prefer[n] {
			same++
		}
		if err := os.WriteFile(filepath.Join(*emit, n), []byte(d), 0o644); err != nil {
			die("%v", err)
		}
	}
	json.NewEncoder(os.Stdout).Encode(map[string]any{"generator_runs": e.Runs, "different_outputs": e.Variants, "files": len(e.Out), "files_equal_to_checked_in": same, "seed": fmt.Sprintf("%#x", e.Seed)})
}

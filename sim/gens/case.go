// Package gens generates, runs, judges and minimises simulated executions of
// the code generator: a file tree, rounds of processes over it, the failures
// they meet, the points at which they are killed and the order in which they
// take turns.
package gens

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"crunchsim/rng"
	"crunchsim/rt"
	"crunchsim/simos"
)

// File is a file or directory of the tree.
type File struct {
	Path  string `json:"path"`
	Data  []byte `json:"data,omitempty"`
	Dir   bool   `json:"dir,omitempty"`
	Mtime int    `json:"mtime,omitempty"` // seconds
	Gone  bool   `json:"gone,omitempty"`  // an edit that removes it
}

// Proc is one run of the generator.
type Proc struct {
	Cwd  string   `json:"cwd"`
	Args []string `json:"args"`
	// Target is the directory the arguments choose, "" when they choose none.
	Target string `json:"target"`
	// BadMode: the arguments name no valid generation mode.
	BadMode bool          `json:"bad_mode,omitempty"`
	Faults  []simos.Fault `json:"faults,omitempty"`
}

func (p *Proc) invalid() bool { return p.BadMode || p.Target == "" }

// Policy names a schedule policy.
type Policy struct {
	Name string  `json:"name"`
	P    float64 `json:"p,omitempty"`
	K    int     `json:"k,omitempty"`
	Seed uint64  `json:"seed"`
}

// Round is a set of processes that overlap; it ends when all of them have ended.
type Round struct {
	Edits    []File      `json:"edits,omitempty"` // made by the user before the round
	Procs    []*Proc     `json:"procs"`
	Free     int         `json:"free"` // disk space, -1: unlimited
	Policy   Policy      `json:"policy"`
	Switches []rt.Switch `json:"switches,omitempty"`
}

// Case is one simulated execution, completely.
type Case struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Files    []File   `json:"files"`
	Rounds   []*Round `json:"rounds"`
	// Order seeds directory and map orders and transfer sizes (0: sorted orders).
	Order uint64 `json:"order"`
	// Chunk bounds what one read or write transfers (0: everything).
	Chunk    int  `json:"chunk,omitempty"`
	Explicit bool `json:"explicit,omitempty"`
}

// ns is how much simulated time a scheduling point takes.
func (c *Case) ns() int64 { return rt.NsFor(c.Seed) }

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Outcome is what a run produced.
type Outcome struct {
	V         *Violation
	Hash      uint64
	Sched     uint64
	Steps     int
	Ns        int64   // simulated time
	Share     float64 // highest share of the step bound used
	Ticks     float64 // highest share of the bound between system calls
	Procs     int
	Overlaps  int
	Switches  int
	Kills     map[string]int // by operation
	Errors    map[string]int // injected, by operation
	DiskFull  int
	Stops     int
	Judged    int
	Skipped   int
	Invalid   int
	Syscalls  map[string]int
	ExitCodes map[int]int
	Log       []string
}

func (r *Round) policy(explicit bool) rt.Policy {
	if explicit {
		return &rt.Replay{Switches: r.Switches}
	}
	x := rng.New(r.Policy.Seed)
	switch r.Policy.Name {
	case "pct":
		return rt.NewPCT(x, 4, max(1, r.Policy.K))
	case "burst":
		return &rt.Burst{R: x, Mean: max(1, r.Policy.K)}
	}
	return &rt.RandomWalk{R: x, P: r.Policy.P}
}

// IsTemplate is the rule for what a template is.
func IsTemplate(name string) bool {
	return strings.HasPrefix(name, "_") && strings.HasSuffix(name, ".go")
}

// OutputName is the name of a template's output.
func OutputName(template string) string {
	return strings.TrimSuffix(strings.TrimPrefix(template, "_"), ".go") + ".generated.go"
}

// templates lists the templates of a directory of a snapshot, by name.
func templates(snap map[string]string, dir string) map[string]string {
	out := map[string]string{}
	for p, data := range snap {
		if strings.HasSuffix(p, "/") || path.Dir(p) != dir {
			continue
		}
		if n := path.Base(p); IsTemplate(n) {
			out[n] = data
		}
	}
	return out
}

func excerpt(s string) string {
	if len(s) <= 60 {
		return fmt.Sprintf("%q", s)
	}
	return fmt.Sprintf("%q...(%d bytes)", s[:60], len(s))
}

func sorted[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Describe renders a case for people.
func (c *Case) Describe() string {
	var b strings.Builder
	file := func(what string, f File) {
		switch {
		case f.Gone:
			fmt.Fprintf(&b, "%s remove %s\n", what, f.Path)
		case f.Dir:
			fmt.Fprintf(&b, "%s directory %s\n", what, f.Path)
		default:
			fmt.Fprintf(&b, "%s file %s: %s\n", what, f.Path, excerpt(string(f.Data)))
		}
	}
	shown := 0
	for _, f := range c.Files {
		if shown++; shown > 40 {
			fmt.Fprintf(&b, "... and %d more files\n", len(c.Files)-40)
			break
		}
		file("before:", f)
	}
	if c.Order != 0 {
		fmt.Fprintf(&b, "directory and map orders from seed %#x\n", c.Order)
	}
	if c.Chunk > 0 {
		fmt.Fprintf(&b, "reads and writes transfer at most %d bytes\n", c.Chunk)
	}
	for i, r := range c.Rounds {
		fmt.Fprintf(&b, "round %d:\n", i)
		for _, f := range r.Edits {
			file("  edit:", f)
		}
		if r.Free >= 0 {
			fmt.Fprintf(&b, "  disk has %d bytes left\n", r.Free)
		}
		for j, p := range r.Procs {
			fmt.Fprintf(&b, "  process %d: (cd %s; %s)", j, p.Cwd, strings.Join(p.Args, " "))
			for _, f := range p.Faults {
				since := ""
				if f.Lasts {
					since = " and ever after"
				}
				fmt.Fprintf(&b, " [%s at system call %d%s %s %s %s n=%d]", f.What, f.At, since, f.Op, f.Path, f.Err, f.N)
			}
			b.WriteString("\n")
		}
	}
	return b.String()
}

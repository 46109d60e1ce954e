// Package simos is the operating system under the simulator: a tree of files in
// memory, processes with their own working directory, descriptors, standard
// streams, flags and globals, and system calls that are scheduling points and
// can be made to fail, to transfer less than asked for, or to be the point at
// which a process is killed.
package simos

import (
	"bytes"
	"fmt"
	"io/fs"
	"sort"
	"strings"
	"syscall"
	"time"

	"crunchsim/rt"
)

// Node is a file or a directory.
type Node struct {
	Dir    bool
	Data   []byte
	Mode   fs.FileMode
	kids   map[string]*Node
	parent *Node
	name   string
	mtime  time.Duration
	gone   bool
}

// World is a machine.
type World struct {
	Root *Node
	// Free is the space left on the disk; negative: unlimited.
	Free int
	// DirOrder permutes directory listings (nil: sorted).
	DirOrder func(n int) []int
	// Chunk limits one write or read system call (0: unlimited).
	Chunk func(n int) int
	Trace func(format string, a ...any)
	clock time.Duration // latest time seen
	base  time.Duration // when the running simulation began
	pids  int
	// Syscalls counts system calls by name.
	Syscalls map[string]int
}

// Fault is a planned failure of one system call of a process.
type Fault struct {
	// At is the number of the system call, from 1.
	At int `json:"at"`
	// What: "error", "short" (transfers a part of it; a write then fails with
	// the error, a read returns what it got), "kill", "killmid" (a write is
	// torn, anything else takes effect, then the process dies), "stop" (the
	// process stands still until no other process goes on).
	What string `json:"what"`
	// Lasts: it strikes from then on, every call or every Op, everywhere or at Path.
	Lasts bool   `json:"lasts,omitempty"`
	Op    string `json:"op,omitempty"`
	Path  string `json:"path,omitempty"`
	Err   string `json:"err,omitempty"`
	N     int    `json:"n,omitempty"` // how much a short or torn transfer moves, in 1/16 of it
}

// Struck is a failure that happened.
type Struck struct {
	Op, Path, Err string
	Writable      bool // the descriptor was open for writing
	Injected      bool
	Planned       string
}

func (s Struck) String() string { return fmt.Sprintf("%s %s: %s", s.Op, s.Path, s.Err) }

// Proc is a simulated process.
type Proc struct {
	W        *World
	Pid      int
	Cwd      *Node
	Args     []string
	Faults   []Fault
	Out      bytes.Buffer // standard output and standard error
	Exited   bool
	Code     int
	Dead     bool // killed
	Crash    string
	Struck   []Struck
	Calls    int
	Log      []string
	stopped  bool
	globals  map[string]any
	files    []*File
	FlagSet  any
	Env      map[string]string
	KeepLogs bool
}

// NewWorld makes an empty machine.
func NewWorld() *World {
	return &World{Root: &Node{Dir: true, Mode: fs.ModeDir | 0o755, kids: map[string]*Node{}}, Free: -1, Syscalls: map[string]int{}}
}

// Current is the process of the running task.
func Current() *Proc {
	t := rt.Cur()
	if t == nil {
		panic("simos: system call outside of a process")
	}
	return t.Data.(*Proc)
}

// Begin tells the world that a new simulation goes on where the last one ended.
func (w *World) Begin() { w.base = w.clock }

// Now is the time since the start of the machine, if a process is running.
func Now() time.Duration {
	if t := rt.Cur(); t != nil {
		if p, ok := t.Data.(*Proc); ok {
			p.W.clock = max(p.W.clock, p.W.base+time.Duration(rt.Now()))
			return p.W.clock
		}
	}
	return time.Duration(rt.Now())
}

// Globals gives the running process its own copy of package-level variables.
func Globals(key string, mk func() any) any {
	p := Current()
	if p.globals == nil {
		p.globals = map[string]any{}
	}
	g, ok := p.globals[key]
	if !ok {
		g = mk()
		p.globals[key] = g
	}
	return g
}

// Start makes a task body that runs main as a process.
func (w *World) Start(p *Proc, main func()) {
	w.pids++
	p.W, p.Pid = w, 100+w.pids
	t := rt.Cur()
	t.Data = p
	t.Gone = func() bool { return p.Exited || p.Dead }
	t.Crash = func(r any) {
		// a panic in any goroutine ends the process
		if !p.Exited && !p.Dead {
			p.Exited, p.Code = true, 2
			p.Crash = fmt.Sprint(r)
			fmt.Fprintf(&p.Out, "panic: %v\n", r)
		}
	}
	defer func() {
		r := recover()
		t.Gone = nil
		for _, f := range p.files {
			f.closed = true
		}
		switch r := r.(type) {
		case nil:
			p.Exited = true
		case rt.Killed:
			// exited or killed
		case rt.Abort:
			panic(r)
		default:
			t.Crash(r)
		}
	}()
	rt.Point("process start")
	main()
}

/* the tree (harness side, no system calls) */

// Put creates a file or, with dir, a directory; parents are made as needed.
func (w *World) Put(path string, data []byte, dir bool) *Node {
	n := w.Root
	parts := split(path)
	for i, s := range parts {
		k := n.kids[s]
		last := i == len(parts)-1
		if k == nil || last && !dir && k.Dir != dir {
			k = &Node{parent: n, name: s, Mode: 0o644}
			if !last || dir {
				k.Dir, k.kids, k.Mode = true, map[string]*Node{}, fs.ModeDir|0o755
			}
			n.kids[s] = k
		}
		if last && !dir {
			k.Data = append([]byte{}, data...)
		}
		n = k
	}
	return n
}

// Lookup finds a node by absolute path.
func (w *World) Lookup(path string) *Node {
	n := w.Root
	for _, s := range split(path) {
		if n == nil || !n.Dir {
			return nil
		}
		n = n.kids[s]
	}
	return n
}

// Drop removes a node by absolute path.
func (w *World) Drop(path string) {
	if n := w.Lookup(path); n != nil && n.parent != nil {
		delete(n.parent.kids, n.name)
		n.gone = true
	}
}

// Snapshot lists every file ("path" -> contents) and directory ("path/" -> "").
func (w *World) Snapshot() map[string]string {
	m := map[string]string{}
	var walk func(p string, n *Node)
	walk = func(p string, n *Node) {
		for s, k := range n.kids {
			if k.Dir {
				m[p+s+"/"] = ""
				walk(p+s+"/", k)
			} else {
				m[p+s] = string(k.Data)
			}
		}
	}
	walk("/", w.Root)
	return m
}

func split(p string) []string {
	var out []string
	for _, s := range strings.Split(p, "/") {
		if s != "" && s != "." {
			out = append(out, s)
		}
	}
	return out
}

// Path is the absolute path of a node.
func (n *Node) Path() string {
	if n.parent == nil {
		return "/"
	}
	p := n.parent.Path()
	if p == "/" {
		return p + n.name
	}
	return p + "/" + n.name
}

/* system calls */

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE, "EROFS": syscall.EROFS,
	"ENOENT": syscall.ENOENT, "EDQUOT": syscall.EDQUOT, "ESTALE": syscall.ESTALE, "ENOMEM": syscall.ENOMEM, "ETXTBSY": syscall.ETXTBSY, "EPERM": syscall.EPERM, "EFBIG": syscall.EFBIG, "ENFILE": syscall.ENFILE,
	"EAGAIN": syscall.EAGAIN, "EBUSY": syscall.EBUSY, "ELOOP": syscall.ELOOP,
}

// Errnos lists the errors an operation can be made to fail with.
func Errnos(op string) []string {
	switch op {
	case "write", "truncate", "sync":
		return []string{"EIO", "ENOSPC", "EDQUOT", "EFBIG", "EAGAIN"}
	case "close":
		return []string{"EIO", "ENOSPC", "EDQUOT"}
	case "read", "readdir":
		return []string{"EIO", "ESTALE", "ENOMEM", "EAGAIN"}
	}
	return []string{"EACCES", "EMFILE", "EIO", "ENOENT", "EROFS", "ENFILE", "ETXTBSY", "EBUSY", "EAGAIN", "ELOOP"}
}

type call struct {
	p     *Proc
	op    string
	path  string
	fault *Fault
	wr    bool
}

// enter is the start of every system call. When the plan has an error for it,
// err is that error and the call must not take effect.
func enter(op, path string, writable bool) (*call, error) {
	p := Current()
	if p.Dead || p.Exited {
		panic(rt.Killed{})
	}
	rt.Point(op)
	p.Calls++
	p.W.Syscalls[op]++
	p.W.clock = max(p.W.clock+time.Microsecond, p.W.base+time.Duration(rt.Now()))
	c := &call{p: p, op: op, path: path, wr: writable}
	for i := range p.Faults {
		f := &p.Faults[i]
		if (f.At == p.Calls || f.Lasts && f.At < p.Calls) && (f.Op == "" || f.Op == op) && (f.Path == "" || f.Path == path) && (c.fault == nil || !f.Lasts) {
			c.fault = f
		}
	}
	if c.fault != nil && c.fault.What == "stop" {
		p.stopped = true
		p.Struck = append(p.Struck, Struck{Op: op, Path: path, Err: "stopped", Planned: "stop"})
		c.logf("stopped")
		c.fault = nil
	}
	if p.stopped {
		rt.Wait("being continued", p.othersStand)
		p.stopped = false
		if p.Dead || p.Exited {
			panic(rt.Killed{})
		}
	}
	if c.fault == nil {
		return c, nil
	}
	switch c.fault.What {
	case "kill":
		c.logf("killed before")
		c.die("kill")
	case "error":
		if op == "exit" || op == "getwd" || op == "stdout" {
			return c, nil
		}
		name := c.fault.Err
		if _, ok := errnos[name]; !ok {
			l := Errnos(op)
			name = l[c.fault.N%len(l)]
		}
		return c, c.strike(errnos[name], name, true)
	}
	return c, nil
}

// othersStand tells whether no other process goes on.
func (p *Proc) othersStand() bool {
	for _, t := range rt.S.Tasks {
		if o, ok := t.Data.(*Proc); ok && o != p && !o.stopped && !o.Dead && !o.Exited {
			return false
		}
	}
	return true
}

func (c *call) logf(f string, a ...any) {
	if c.p.KeepLogs {
		c.p.Log = append(c.p.Log, fmt.Sprintf("pid %d call %d %s %s: ", c.p.Pid, c.p.Calls, c.op, c.path)+fmt.Sprintf(f, a...))
	}
	if c.p.W.Trace != nil {
		c.p.W.Trace("pid %d call %d %s %s: %s", c.p.Pid, c.p.Calls, c.op, c.path, fmt.Sprintf(f, a...))
	}
}

func (c *call) die(planned string) {
	c.p.Struck = append(c.p.Struck, Struck{Op: c.op, Path: c.path, Err: "killed", Writable: c.wr, Injected: true, Planned: planned})
	c.p.Dead = true
	panic(rt.Killed{})
}

// strike records a failure and makes the error.
func (c *call) strike(e syscall.Errno, name string, injected bool) error {
	pl := ""
	if injected {
		pl = "error " + name
	}
	c.p.Struck = append(c.p.Struck, Struck{Op: c.op, Path: c.path, Err: e.Error(), Writable: c.wr, Injected: injected, Planned: pl})
	c.logf("fails: %v", e)
	return e
}

// leave is the end of every system call that took effect.
func (c *call) leave() {
	c.logf("ok")
	if c.fault != nil && c.fault.What == "killmid" {
		c.logf("killed after")
		c.die("kill")
	}
}

// resolve walks a path from the process's working directory. It returns the
// parent directory, the last name and the node, if there.
func (p *Proc) resolve(path string) (dir *Node, name string, n *Node, err syscall.Errno) {
	if path == "" {
		return nil, "", nil, syscall.ENOENT
	}
	d := p.Cwd
	if strings.HasPrefix(path, "/") {
		d = p.W.Root
	}
	n = d
	dir, name = d.parent, d.name
	parts := split(path)
	for i, s := range parts {
		if n == nil {
			return nil, "", nil, syscall.ENOENT
		}
		if !n.Dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if s == ".." {
			if n.parent != nil {
				n = n.parent
			}
			dir, name = n.parent, n.name
			continue
		}
		dir, name = n, s
		n = n.kids[s]
		if n == nil && i < len(parts)-1 {
			return nil, "", nil, syscall.ENOENT
		}
	}
	if n != nil && !n.Dir && strings.HasSuffix(path, "/") {
		return nil, "", nil, syscall.ENOTDIR
	}
	return dir, name, n, 0
}

func (p *Proc) abs(path string) string {
	d, name, n, err := p.resolve(path)
	if err != 0 {
		return path
	}
	if n != nil {
		return n.Path()
	}
	if d == nil {
		return "/"
	}
	return strings.TrimSuffix(d.Path(), "/") + "/" + name
}

func (w *World) list(n *Node) []*Node {
	var names []string
	for s := range n.kids {
		names = append(names, s)
	}
	sort.Strings(names)
	if w.DirOrder != nil {
		perm := w.DirOrder(len(names))
		out := make([]string, len(names))
		for i, j := range perm {
			out[i] = names[j]
		}
		names = out
	}
	var out []*Node
	for _, s := range names {
		out = append(out, n.kids[s])
	}
	return out
}

// SetMtime sets the modification time, relative to the start of the machine.
func (n *Node) SetMtime(d time.Duration) { n.mtime = d }

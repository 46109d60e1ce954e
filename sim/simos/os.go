package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"strings"
	"syscall"
	"time"

	"crunchsim/rt"
)

// Flags, modes and errors of package os.
const (
	O_RDONLY = syscall.O_RDONLY
	O_WRONLY = syscall.O_WRONLY
	O_RDWR   = syscall.O_RDWR
	O_APPEND = syscall.O_APPEND
	O_CREATE = syscall.O_CREAT
	O_EXCL   = syscall.O_EXCL
	O_SYNC   = syscall.O_SYNC
	O_TRUNC  = syscall.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm
)

type (
	FileInfo  = fs.FileInfo
	FileMode  = fs.FileMode
	PathError = fs.PathError
	DirEntry  = fs.DirEntry
	Signal    interface {
		String() string
		Signal()
	}
	SyscallError struct {
		Syscall string
		Err     error
	}
	LinkError struct {
		Op, Old, New string
		Err          error
	}
)

func (e *SyscallError) Error() string { return e.Syscall + ": " + e.Err.Error() }
func (e *SyscallError) Unwrap() error { return e.Err }
func (e *LinkError) Error() string {
	return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error()
}
func (e *LinkError) Unwrap() error { return e.Err }

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = errors.New("file type does not support deadline")
	ErrDeadlineExceeded = errors.New("i/o timeout")
	ErrProcessDone      = errors.New("os: process already finished")

	Interrupt Signal = syscall.SIGINT
	Kill      Signal = syscall.SIGKILL

	Stdin  = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 2}
)

func IsNotExist(err error) bool    { return errors.Is(under(err), fs.ErrNotExist) }
func IsExist(err error) bool       { return errors.Is(under(err), fs.ErrExist) }
func IsPermission(err error) bool  { return errors.Is(under(err), fs.ErrPermission) }
func IsTimeout(err error) bool     { return false }
func IsPathSeparator(c uint8) bool { return c == '/' }
func NewSyscallError(s string, err error) error {
	if err == nil {
		return nil
	}
	return &SyscallError{s, err}
}

func under(err error) error {
	switch e := err.(type) {
	case *fs.PathError:
		return e.Err
	case *LinkError:
		return e.Err
	case *SyscallError:
		return e.Err
	}
	return err
}

// File is an open file.
type File struct {
	name   string
	n      *Node
	p      *Proc
	off    int64
	flag   int
	closed bool
	std    int
	dirq   []*Node
	dirgot bool
}

type info struct {
	name string
	n    *Node
	size int64
	dir  bool
}

func stat(n *Node, name string) fs.FileInfo {
	return &info{name, n, int64(len(n.Data)), n.Dir}
}
func (i *info) Name() string               { return i.name }
func (i *info) Size() int64                { return i.size }
func (i *info) Mode() fs.FileMode          { return i.n.Mode }
func (i *info) ModTime() time.Time         { return time.Unix(1_600_000_000, 0).Add(i.n.mtime) }
func (i *info) IsDir() bool                { return i.dir }
func (i *info) Sys() any                   { return nil }
func (i *info) Type() fs.FileMode          { return i.n.Mode.Type() }
func (i *info) Info() (fs.FileInfo, error) { return i, nil }
func (i *info) String() string             { return fs.FormatFileInfo(i) }

func SameFile(a, b FileInfo) bool {
	x, ok := a.(*info)
	y, ok2 := b.(*info)
	return ok && ok2 && x.n == y.n
}

func perr(op, path string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: path, Err: err}
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func writable(flag int) bool { return flag&(O_WRONLY|O_RDWR) != 0 }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	p := Current()
	c, err := enter("open", p.abs(name), writable(flag))
	if err != nil {
		return nil, perr("open", name, err)
	}
	bad := func(e syscall.Errno) (*File, error) {
		return nil, perr("open", name, c.strike(e, "", false))
	}
	dir, last, n, e := p.resolve(name)
	if e != 0 {
		return bad(e)
	}
	if n == nil {
		if flag&O_CREATE == 0 || strings.HasSuffix(name, "/") {
			return bad(syscall.ENOENT)
		}
		if dir.gone {
			return bad(syscall.ENOENT)
		}
		n = &Node{parent: dir, name: last, Mode: perm.Perm() &^ 0o022, mtime: p.W.clock}
		dir.kids[last] = n
	} else {
		if flag&(O_CREATE|O_EXCL) == O_CREATE|O_EXCL {
			return bad(syscall.EEXIST)
		}
		if n.Dir && (writable(flag) || flag&O_CREATE != 0) {
			return bad(syscall.EISDIR)
		}
		if flag&O_TRUNC != 0 && !n.Dir && writable(flag) {
			p.W.resize(n, 0)
		}
	}
	f := &File{name: name, n: n, p: p, flag: flag}
	p.files = append(p.files, f)
	c.leave()
	return f, nil
}

func (w *World) resize(n *Node, size int64) {
	if int64(len(n.Data)) > size {
		if w.Free >= 0 {
			w.Free += len(n.Data) - int(size)
		}
		n.Data = n.Data[:size:size]
	} else if int64(len(n.Data)) < size {
		n.Data = append(n.Data, make([]byte, size-int64(len(n.Data)))...) // holes take no space
	}
	n.mtime = w.clock
}

func (f *File) ok(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) path() string {
	if f.n == nil {
		return f.name
	}
	return f.n.Path()
}

func (f *File) Close() error {
	if err := f.ok("close"); err != nil {
		return err
	}
	if f.std > 0 {
		return nil
	}
	c, err := enter("close", f.path(), writable(f.flag))
	f.closed = true // also when it reports an error
	if err != nil {
		return perr("close", f.name, err)
	}
	c.leave()
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	if f.std > 0 {
		return 0, io.EOF
	}
	n, err := f.pread(b, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) pread(b []byte, off int64) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	c, err := enter("read", f.path(), false)
	if err != nil {
		return 0, perr("read", f.name, err)
	}
	if f.n.Dir {
		return 0, perr("read", f.name, c.strike(syscall.EISDIR, "", false))
	}
	if f.flag&O_WRONLY != 0 {
		return 0, perr("read", f.name, c.strike(syscall.EBADF, "", false))
	}
	if off >= int64(len(f.n.Data)) {
		c.leave()
		return 0, io.EOF
	}
	n := min(len(b), len(f.n.Data)-int(off))
	if f.p.W.Chunk != nil {
		n = f.p.W.Chunk(n)
	}
	if c.fault != nil && c.fault.What == "short" {
		n = max(1, n*c.fault.N/16)
	}
	copy(b, f.n.Data[off:off+int64(n)])
	c.leave()
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (n int, err error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	for n < len(b) {
		m, err := f.pread(b[n:], off+int64(n))
		n += m
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	if f.std == 2 {
		p := Current()
		if p.Dead || p.Exited {
			panic(rt.Killed{})
		}
		return p.Out.Write(b)
	}
	if f.std == 1 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	n := 0
	for n < len(b) {
		off := f.off
		if f.flag&O_APPEND != 0 {
			off = -1
		}
		m, err := f.pwrite(b[n:], off)
		n += m
		f.off += int64(m)
		if f.flag&O_APPEND != 0 {
			f.off = int64(len(f.n.Data))
		}
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

// pwrite is one write system call.
func (f *File) pwrite(b []byte, off int64) (int, error) {
	c, err := enter("write", f.path(), true)
	if err != nil {
		return 0, perr("write", f.name, err)
	}
	if !writable(f.flag) || f.n.Dir {
		return 0, perr("write", f.name, c.strike(syscall.EBADF, "", false))
	}
	n := len(b)
	if f.p.W.Chunk != nil {
		n = f.p.W.Chunk(n)
	}
	dead := false
	var short *Fault
	if c.fault != nil {
		switch c.fault.What {
		case "short", "killmid":
			n = n * c.fault.N / 16
			dead = c.fault.What == "killmid"
			if !dead {
				short = c.fault
			}
		}
	}
	w := f.p.W
	if off < 0 {
		off = int64(len(f.n.Data))
	}
	full := false
	if w.Free >= 0 {
		grow := int(off) + n - len(f.n.Data)
		if grow > w.Free {
			n = max(0, n-(grow-w.Free))
			full = true
			grow = int(off) + n - len(f.n.Data)
		}
		if grow > 0 {
			w.Free -= grow
		}
	}
	if n > 0 {
		if end := off + int64(n); end > int64(len(f.n.Data)) {
			f.n.Data = append(f.n.Data, make([]byte, end-int64(len(f.n.Data)))...)
		}
		copy(f.n.Data[off:], b[:n])
		f.n.mtime = w.clock
	}
	switch {
	case dead:
		c.logf("killed after %d of %d bytes", n, len(b))
		c.die("torn write")
	case short != nil:
		name := short.Err
		if _, ok := errnos[name]; !ok {
			name = "EIO"
		}
		return n, perr("write", f.name, c.strike(errnos[name], "after a short write", true))
	case full && n == 0:
		err := c.strike(syscall.ENOSPC, "", true)
		c.p.Struck[len(c.p.Struck)-1].Planned = "disk full"
		return 0, perr("write", f.name, err)
	}
	c.logf("%d of %d bytes", n, len(b))
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	n := 0
	for n < len(b) {
		m, err := f.pwrite(b[n:], off+int64(n))
		n += m
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.ok("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.n.Data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	if f.n != nil && f.n.Dir {
		f.dirgot, f.dirq = false, nil
	}
	return off, nil
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.ok("stat"); err != nil {
		return nil, err
	}
	c, err := enter("fstat", f.path(), writable(f.flag))
	if err != nil {
		return nil, perr("stat", f.name, err)
	}
	c.leave()
	return stat(f.n, base(f.name)), nil
}

func base(p string) string {
	s := split(p)
	if len(s) == 0 {
		return "/"
	}
	return s[len(s)-1]
}

func (f *File) Sync() error {
	if err := f.ok("sync"); err != nil {
		return err
	}
	c, err := enter("sync", f.path(), writable(f.flag))
	if err != nil {
		return perr("sync", f.name, err)
	}
	c.leave()
	return nil
}

func (f *File) Truncate(size int64) error {
	if err := f.ok("truncate"); err != nil {
		return err
	}
	c, err := enter("truncate", f.path(), true)
	if err != nil {
		return perr("truncate", f.name, err)
	}
	if !writable(f.flag) || size < 0 {
		return perr("truncate", f.name, c.strike(syscall.EINVAL, "", false))
	}
	f.p.W.resize(f.n, size)
	c.leave()
	return nil
}

func (f *File) Chmod(m FileMode) error {
	if err := f.ok("chmod"); err != nil {
		return err
	}
	f.n.Mode = f.n.Mode&^fs.ModePerm | m.Perm()
	return nil
}

func (f *File) Chown(int, int) error             { return f.ok("chown") }
func (f *File) SetDeadline(time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return ErrNoDeadline }

func (f *File) Chdir() error {
	if err := f.ok("chdir"); err != nil {
		return err
	}
	c, err := enter("chdir", f.path(), false)
	if err != nil {
		return perr("chdir", f.name, err)
	}
	if !f.n.Dir {
		return perr("chdir", f.name, c.strike(syscall.ENOTDIR, "", false))
	}
	f.p.Cwd = f.n
	c.leave()
	return nil
}

// readdir returns up to n nodes (all when n <= 0) and the error.
func (f *File) readdir(n int) ([]*Node, error) {
	if err := f.ok("readdir"); err != nil {
		return nil, err
	}
	if f.n == nil || !f.n.Dir {
		return nil, perr("readdirent", f.name, syscall.ENOTDIR)
	}
	if !f.dirgot {
		f.dirgot, f.dirq = true, f.p.W.list(f.n)
	}
	c, err := enter("readdir", f.path(), false)
	if err != nil {
		// the entries of earlier blocks were already delivered
		k := 0
		if c.fault != nil && n <= 0 {
			k = len(f.dirq) * (c.fault.N % 16) / 16
		}
		got := f.dirq[:k]
		f.dirq = f.dirq[k:]
		return got, perr("readdirent", f.name, err)
	}
	c.leave()
	if n <= 0 {
		got := f.dirq
		f.dirq = nil
		return got, nil
	}
	if len(f.dirq) == 0 {
		return nil, io.EOF
	}
	k := min(n, len(f.dirq))
	got := f.dirq[:k]
	f.dirq = f.dirq[k:]
	return got, nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	l, err := f.readdir(n)
	out := []FileInfo{}
	for _, k := range l {
		out = append(out, stat(k, k.name))
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.readdir(n)
	out := []string{}
	for _, k := range l {
		out = append(out, k.name)
	}
	return out, err
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	l, err := f.readdir(n)
	out := []DirEntry{}
	for _, k := range l {
		out = append(out, stat(k, k.name).(*info))
	}
	return out, err
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.ReadDir(-1)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	// like the real one: read until io.EOF, whatever the size said
	data := make([]byte, 0, 512)
	for {
		n, err := f.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return data, err
		}
		if len(data) == cap(data) {
			data = append(data, 0)[:len(data)]
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func doStat(op, name string) (FileInfo, error) {
	p := Current()
	c, err := enter(op, p.abs(name), false)
	if err != nil {
		return nil, perr(op, name, err)
	}
	_, _, n, e := p.resolve(name)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return nil, perr(op, name, c.strike(e, "", false))
	}
	c.leave()
	return stat(n, base(name)), nil
}

func Stat(name string) (FileInfo, error)  { return doStat("stat", name) }
func Lstat(name string) (FileInfo, error) { return doStat("lstat", name) }

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func Remove(name string) error {
	p := Current()
	c, err := enter("remove", p.abs(name), true)
	if err != nil {
		return perr("remove", name, err)
	}
	_, _, n, e := p.resolve(name)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e == 0 && n.Dir && len(n.kids) > 0 {
		e = syscall.ENOTEMPTY
	}
	if e != 0 {
		return perr("remove", name, c.strike(e, "", false))
	}
	n.unlink()
	c.leave()
	return nil
}

func (n *Node) unlink() {
	if n.parent != nil && n.parent.kids[n.name] == n {
		delete(n.parent.kids, n.name)
	}
	n.gone = true
}

func RemoveAll(name string) error {
	p := Current()
	c, err := enter("remove", p.abs(name), true)
	if err != nil {
		return perr("unlinkat", name, err)
	}
	_, _, n, e := p.resolve(name)
	if e == 0 && n != nil {
		n.unlink()
	}
	c.leave()
	return nil
}

func Rename(from, to string) error {
	p := Current()
	c, err := enter("rename", p.abs(to), true)
	bad := func(e error) error { return &LinkError{"rename", from, to, e} }
	if err != nil {
		return bad(err)
	}
	_, _, n, e := p.resolve(from)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return bad(c.strike(e, "", false))
	}
	d, name, o, e := p.resolve(to)
	if e == 0 && d == nil {
		e = syscall.EBUSY
	}
	if e == 0 && o != nil && o.Dir && (!n.Dir || len(o.kids) > 0) {
		e = syscall.EEXIST
	}
	if e == 0 && o != nil && !o.Dir && n.Dir {
		e = syscall.ENOTDIR
	}
	if e != 0 {
		return bad(c.strike(e, "", false))
	}
	if o != n {
		if o != nil {
			o.unlink()
		}
		delete(n.parent.kids, n.name)
		n.parent, n.name = d, name
		d.kids[name] = n
	}
	c.leave()
	return nil
}

func Mkdir(name string, perm FileMode) error {
	p := Current()
	c, err := enter("mkdir", p.abs(name), true)
	if err != nil {
		return perr("mkdir", name, err)
	}
	d, last, n, e := p.resolve(name)
	if e == 0 && n != nil {
		e = syscall.EEXIST
	}
	if e != 0 {
		return perr("mkdir", name, c.strike(e, "", false))
	}
	d.kids[last] = &Node{Dir: true, Mode: fs.ModeDir | perm.Perm(), kids: map[string]*Node{}, parent: d, name: last}
	c.leave()
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	parts := split(name)
	pre := ""
	if strings.HasPrefix(name, "/") {
		pre = "/"
	}
	for i := range parts {
		s := pre + strings.Join(parts[:i+1], "/")
		if err := Mkdir(s, perm); err != nil && !IsExist(err) {
			return err
		}
	}
	return nil
}

func tempName(p *Proc, dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	p.W.pids++
	r := fmt.Sprint(1000000 + p.W.pids*7919)
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return dir + "/" + pattern[:i] + r + pattern[i+1:]
	}
	return dir + "/" + pattern + r
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(Current(), dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0o600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(Current(), dir, pattern)
	return n, Mkdir(n, 0o700)
}

func Chdir(name string) error {
	p := Current()
	c, err := enter("chdir", p.abs(name), false)
	if err != nil {
		return perr("chdir", name, err)
	}
	_, _, n, e := p.resolve(name)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e == 0 && !n.Dir {
		e = syscall.ENOTDIR
	}
	if e != 0 {
		return perr("chdir", name, c.strike(e, "", false))
	}
	p.Cwd = n
	c.leave()
	return nil
}

func Getwd() (string, error) {
	c, err := enter("getwd", "", false)
	if err != nil {
		return "", NewSyscallError("getwd", err)
	}
	c.leave()
	return c.p.Cwd.Path(), nil
}

func Chmod(name string, m FileMode) error {
	p := Current()
	_, _, n, e := p.resolve(name)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return perr("chmod", name, e)
	}
	n.Mode = n.Mode&^fs.ModePerm | m.Perm()
	return nil
}

func Chtimes(name string, a, m time.Time) error { _, err := Stat(name); return err }
func Chown(name string, u, g int) error         { _, err := Stat(name); return err }
func Link(a, b string) error                    { return &LinkError{"link", a, b, syscall.ENOSYS} }
func Symlink(a, b string) error                 { return &LinkError{"symlink", a, b, syscall.ENOSYS} }
func Readlink(a string) (string, error)         { return "", perr("readlink", a, syscall.EINVAL) }

// Exit ends the process; nothing of it runs any more.
func Exit(code int) {
	p := Current()
	if !p.Dead && !p.Exited {
		rt.Point("exit")
		p.Exited, p.Code = true, code&0xff // all a parent gets to see
	}
	panic(rt.Killed{})
}

func Getpid() int                  { return Current().Pid }
func Getppid() int                 { return 1 }
func Getuid() int                  { return 1000 }
func Geteuid() int                 { return 1000 }
func Getgid() int                  { return 1000 }
func TempDir() string              { return "/tmp" }
func Hostname() (string, error)    { return "sim", nil }
func UserHomeDir() (string, error) { return "/home/sim", nil }
func Executable() (string, error)  { return "/work/generation/generation", nil }
func Getenv(k string) string       { return Current().Env[k] }
func LookupEnv(k string) (string, bool) {
	v, ok := Current().Env[k]
	return v, ok
}
func Setenv(k, v string) error {
	p := Current()
	if p.Env == nil {
		p.Env = map[string]string{}
	}
	p.Env[k] = v
	return nil
}
func Environ() (l []string) {
	for k, v := range Current().Env {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return
}

type dirFS string

// DirFS mirrors os.DirFS.
func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) Open(name string) (fs.File, error) {
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}
func (d dirFS) ReadFile(name string) ([]byte, error)       { return ReadFile(string(d) + "/" + name) }
func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) { return ReadDir(string(d) + "/" + name) }
func (d dirFS) Stat(name string) (fs.FileInfo, error)      { return Stat(string(d) + "/" + name) }

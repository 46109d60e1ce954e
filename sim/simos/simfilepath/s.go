// Package simfilepath is path/filepath over simos.
package simfilepath

import (
	"io/fs"
	"path/filepath"
	"sort"

	"crunchsim/simos"
)

const (
	Separator     = '/'
	ListSeparator = ':'
)

var (
	ErrBadPattern = filepath.ErrBadPattern
	SkipDir       = fs.SkipDir
	SkipAll       = fs.SkipAll
)

type WalkFunc = func(path string, info fs.FileInfo, err error) error

func Base(p string) string                  { return filepath.Base(p) }
func Clean(p string) string                 { return filepath.Clean(p) }
func Dir(p string) string                   { return filepath.Dir(p) }
func Ext(p string) string                   { return filepath.Ext(p) }
func FromSlash(p string) string             { return p }
func ToSlash(p string) string               { return p }
func IsAbs(p string) bool                   { return filepath.IsAbs(p) }
func IsLocal(p string) bool                 { return filepath.IsLocal(p) }
func Join(e ...string) string               { return filepath.Join(e...) }
func Match(p, n string) (bool, error)       { return filepath.Match(p, n) }
func Rel(a, b string) (string, error)       { return filepath.Rel(a, b) }
func Split(p string) (string, string)       { return filepath.Split(p) }
func SplitList(p string) []string           { return filepath.SplitList(p) }
func VolumeName(p string) string            { return "" }
func EvalSymlinks(p string) (string, error) { _, err := simos.Stat(p); return filepath.Clean(p), err }

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, err := simos.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, p), nil
}

// Glob supports patterns in the last element only.
func Glob(pattern string) ([]string, error) {
	dir, last := filepath.Split(pattern)
	if _, err := filepath.Match(last, ""); err != nil {
		return nil, err
	}
	d := filepath.Clean(dir)
	if dir == "" {
		d = "."
	}
	f, err := simos.Open(d)
	if err != nil {
		return nil, nil
	}
	defer f.Close()
	names, _ := f.Readdirnames(-1)
	sort.Strings(names)
	var out []string
	for _, n := range names {
		if ok, _ := filepath.Match(last, n); ok {
			out = append(out, filepath.Join(dir, n))
		}
	}
	return out, nil
}

func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var fi fs.FileInfo
		if d != nil {
			fi, _ = d.Info()
		}
		return fn(p, fi, err)
	})
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := simos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := simos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == fs.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, k := range l {
		if err := walk(filepath.Join(p, k.Name()), k, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

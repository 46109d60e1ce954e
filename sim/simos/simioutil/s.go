// Package simioutil is io/ioutil over simos.
package simioutil

import (
	"io"
	"sort"

	"crunchsim/simos"
)

var Discard = io.Discard

func NopCloser(r io.Reader) io.ReadCloser         { return io.NopCloser(r) }
func ReadAll(r io.Reader) ([]byte, error)         { return io.ReadAll(r) }
func ReadFile(name string) ([]byte, error)        { return simos.ReadFile(name) }
func TempDir(dir, pattern string) (string, error) { return simos.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*simos.File, error) {
	return simos.CreateTemp(dir, pattern)
}
func WriteFile(name string, data []byte, perm simos.FileMode) error {
	return simos.WriteFile(name, data, perm)
}
func ReadDir(name string) ([]simos.FileInfo, error) {
	f, err := simos.Open(name)
	if err != nil {
		return nil, err
	}
	l, err := f.Readdir(-1)
	f.Close()
	if err != nil {
		return nil, err
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, nil
}

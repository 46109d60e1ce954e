//go:build !regen

package buf

// Twins reports that this program holds no regenerated sources.
func Twins() (differences []string, ok bool) { return nil, false }

func twinError(any) (string, bool) { return "", false }

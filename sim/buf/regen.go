//go:build regen

package buf

import (
	"fmt"
	"sort"

	v3r "crunchsim/gen/v3r"
)

// the kinds of the regenerated v3
var (
	V3RB = mk("v3r.Buffer", 3, false, func(s [][]byte) any { return v3r.NewBuffer(s...) })
	V3RM = mk("v3r.MiniBuffer", 3, true, func(s [][]byte) any {
		var b *v3r.MiniBuffer
		if used(s) {
			v3r.NewMiniBuffer(&b, []byte{1, 2, 3}, []byte{4, 5, 6})
			b.SeekBit(5, false)
			b.SeekByte(2, false)
		}
		v3r.NewMiniBuffer(&b, s...)
		return b
	})
)

func init() {
	ByName[V3RB.Name], ByName[V3RM.Name] = V3RB, V3RM
	for v, n := range map[any]string{
		v3r.BufferOverreadError: "overread", v3r.BufferUnderreadError: "underread",
		v3r.BufferOverwriteError: "overwrite", v3r.BufferUnderwriteError: "underwrite",
		v3r.BufferInvalidByteCountError: "invalidcount",
	} {
		crunchErrors[v] = n
	}
}

func twinError(r any) (string, bool) {
	e, ok := r.(v3r.Error)
	if !ok {
		return "", false
	}
	if n, ok := crunchErrors[r]; ok {
		return n, true
	}
	return "crunch: " + e.Error(), true
}

// Twins lists how the methods of the checked-in and of the regenerated types differ.
func Twins() (differences []string, ok bool) {
	for _, p := range [][2]*Kind{{V3B, V3RB}, {V3M, V3RM}} {
		have := [2]map[string]string{{}, {}}
		for i, k := range p {
			for j := 0; j < k.typ.NumMethod(); j++ {
				m := k.typ.Method(j)
				have[i][m.Name] = m.Type.String()
			}
		}
		name := p[0].Name[len("v3."):]
		for m, t := range have[0] {
			switch u, ok := have[1][m]; {
			case !ok:
				differences = append(differences, fmt.Sprintf("%s.%s is not in the regenerated sources", name, m))
			case t != u:
				differences = append(differences, fmt.Sprintf("%s.%s is %s in the checked-in sources and %s in the regenerated ones", name, m, t, u))
			}
		}
		for m := range have[1] {
			if _, ok := have[0][m]; !ok {
				differences = append(differences, fmt.Sprintf("%s.%s is only in the regenerated sources", name, m))
			}
		}
	}
	sort.Strings(differences)
	return differences, true
}

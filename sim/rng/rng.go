// Package rng is the seeded randomness of the harness.
package rng

import "math/rand"

type splitmix struct{ s uint64 }

func (x *splitmix) Seed(s int64) { x.s = uint64(s) }
func (x *splitmix) Uint64() uint64 {
	x.s += 0x9e3779b97f4a7c15
	z := x.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (x *splitmix) Int63() int64 { return int64(x.Uint64() >> 1) }

// New is a cheap seeded generator.
func New(seed uint64) *rand.Rand { return rand.New(&splitmix{seed}) }

// Mix derives a seed.
func Mix(a, b uint64) uint64 {
	x := splitmix{a ^ b*0xff51afd7ed558ccd}
	x.Uint64()
	return x.Uint64()
}

// CaseSeed is the seed of run i of a search for violations of prop.
func CaseSeed(prop string, base uint64, i int) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range prop {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return Mix(Mix(h, base), uint64(i))
}

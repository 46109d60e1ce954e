package scen

import (
	"math/rand"

	"crunchsim/rng"
)

// NewRand is a cheap seeded generator.
func NewRand(seed uint64) *rand.Rand { return rng.New(seed) }

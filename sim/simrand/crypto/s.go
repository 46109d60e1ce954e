// Package rand is crypto/rand with the simulation's randomness.
package rand

import (
	"io"
	"math/big"

	"crunchsim/rt"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(rt.Rand64() >> 56)
	}
	return len(p), nil
}

// Reader is crypto/rand.Reader.
var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return Reader.Read(p) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, (max.BitLen()+7)/8+8)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	n := new(big.Int).SetBytes(b)
	return n.Mod(n, max), nil
}

func Text() string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	_, _ = Read(b)
	for i := range b {
		b[i] = abc[b[i]%32]
	}
	return string(b)
}

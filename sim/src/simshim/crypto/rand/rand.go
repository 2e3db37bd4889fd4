// Package rand is the simulated crypto/rand: deterministic per run.
package rand

import (
	real "crypto/rand"
	"io"
	"math/big"
	"simrt"
)

type reader struct{}

// Source replaces the entropy source while it's set.
var Source func(b []byte) (int, error)

func (reader) Read(b []byte) (int, error) {
	if Source != nil {
		return Source(b)
	}
	for i := range b {
		b[i] = byte(simrt.Rand64())
	}
	return len(b), nil
}

// Reader is the simulated entropy source.
var Reader io.Reader = reader{}

// Read fills b.
func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

// Int is crypto/rand.Int.
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return real.Int(r, max) }

// Prime is crypto/rand.Prime.
func Prime(r io.Reader, bits int) (*big.Int, error) { return real.Prime(r, bits) }

// Text is crypto/rand.Text.
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = a[b[i]%32]
	}
	return string(b)
}

// Package rand replaces crypto/rand in instrumented code.
package rand

import (
	crand "crypto/rand"
	"errors"
	"io"
	"math/big"

	"verifsim/simrt"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(simrt.Uint64n(256))
	}
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		return nil, errors.New("crypto/rand: argument to Int is <= 0")
	}
	if max.IsUint64() {
		return new(big.Int).SetUint64(simrt.Uint64n(max.Uint64())), nil
	}
	return crand.Int(r, max)
}

func Prime(r io.Reader, bits int) (*big.Int, error) { return crand.Prime(r, bits) }

func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	for i := range b {
		b[i] = a[simrt.Uint64n(32)]
	}
	return string(b)
}

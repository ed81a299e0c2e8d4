// Package rand replaces math/rand/v2 in instrumented code.
package rand

import (
	mrand "math/rand/v2"

	"verifsim/simrt"
)

type Source interface{ Uint64() uint64 }

type simSource struct{}

func (simSource) Uint64() uint64 { return simrt.Uint64() }

type PCG struct{ simSource }
type ChaCha8 struct{ simSource }
type Zipf = mrand.Zipf

func NewPCG(a, b uint64) *PCG           { simrt.Seed(int64(a ^ b)); return &PCG{} }
func (p *PCG) Seed(a, b uint64)         { simrt.Seed(int64(a ^ b)) }
func NewChaCha8(seed [32]byte) *ChaCha8 { simrt.Seed(int64(seed[0])); return &ChaCha8{} }
func (c *ChaCha8) Seed(seed [32]byte)   { simrt.Seed(int64(seed[0])) }
func (c *ChaCha8) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(simrt.Uint64n(256))
	}
	return len(p), nil
}

type Rand struct{ src Source }

func New(src Source) *Rand { return &Rand{src} }

func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf {
	return mrand.NewZipf(mrand.New(simSource{}), s, v, imax)
}

type intType interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func N[T intType](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(simrt.Uint64n(uint64(n)))
}

func (r *Rand) Int64() int64            { simrt.Touch(r, "random generator"); return Int64() }
func (r *Rand) Uint32() uint32          { simrt.Touch(r, "random generator"); return Uint32() }
func (r *Rand) Uint64() uint64          { simrt.Touch(r, "random generator"); return Uint64() }
func (r *Rand) Int32() int32            { simrt.Touch(r, "random generator"); return Int32() }
func (r *Rand) Int() int                { simrt.Touch(r, "random generator"); return Int() }
func (r *Rand) Uint() uint              { simrt.Touch(r, "random generator"); return Uint() }
func (r *Rand) Int64N(n int64) int64    { simrt.Touch(r, "random generator"); return N(n) }
func (r *Rand) Uint64N(n uint64) uint64 { simrt.Touch(r, "random generator"); return N(n) }
func (r *Rand) Int32N(n int32) int32    { simrt.Touch(r, "random generator"); return N(n) }
func (r *Rand) Uint32N(n uint32) uint32 { simrt.Touch(r, "random generator"); return N(n) }
func (r *Rand) IntN(n int) int          { simrt.Touch(r, "random generator"); return N(n) }
func (r *Rand) UintN(n uint) uint       { simrt.Touch(r, "random generator"); return N(n) }
func (r *Rand) Float64() float64        { simrt.Touch(r, "random generator"); return Float64() }
func (r *Rand) Float32() float32        { simrt.Touch(r, "random generator"); return Float32() }
func (r *Rand) NormFloat64() float64    { simrt.Touch(r, "random generator"); return NormFloat64() }
func (r *Rand) ExpFloat64() float64     { simrt.Touch(r, "random generator"); return ExpFloat64() }
func (r *Rand) Perm(n int) []int        { simrt.Touch(r, "random generator"); return Perm(n) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	simrt.Touch(r, "random generator")
	Shuffle(n, swap)
}

func Int64() int64            { return int64(simrt.Uint64() >> 1) }
func Uint32() uint32          { return uint32(simrt.Uint64() >> 32) }
func Uint64() uint64          { return simrt.Uint64() }
func Int32() int32            { return int32(simrt.Uint64() >> 33) }
func Int() int                { return int(simrt.Uint64() >> 1) }
func Uint() uint              { return uint(simrt.Uint64()) }
func Int64N(n int64) int64    { return N(n) }
func Uint64N(n uint64) uint64 { return N(n) }
func Int32N(n int32) int32    { return N(n) }
func Uint32N(n uint32) uint32 { return N(n) }
func IntN(n int) int          { return N(n) }
func UintN(n uint) uint       { return N(n) }
func Float64() float64        { return float64(simrt.Uint64n(1<<53)) / (1 << 53) }
func Float32() float32        { return float32(simrt.Uint64n(1<<24)) / (1 << 24) }
func NormFloat64() float64    { return simrt.Stream().NormFloat64() }
func ExpFloat64() float64     { return simrt.Stream().ExpFloat64() }

func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

func Shuffle(n int, swap func(i, j int)) {
	if n < 0 {
		panic("invalid argument to Shuffle")
	}
	for i := n - 1; i > 0; i-- {
		swap(i, int(simrt.Uint64n(uint64(i+1))))
	}
}

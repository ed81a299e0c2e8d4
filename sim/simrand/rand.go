// Package rand replaces math/rand in instrumented code. All draws, from the global functions and
// from generators made with New, come from the simulated stream of the running task.
package rand

import (
	mrand "math/rand"

	"verifsim/simrt"
)

type Source interface {
	Int63() int64
	Seed(seed int64)
}

type Source64 interface {
	Source
	Uint64() uint64
}

type simSource struct{}

func (simSource) Int63() int64    { return int64(simrt.Uint64() >> 1) }
func (simSource) Uint64() uint64  { return simrt.Uint64() }
func (simSource) Seed(seed int64) { simrt.Seed(seed) }

func NewSource(seed int64) Source { simrt.Seed(seed); return simSource{} }

type Rand struct{ src Source }

func New(src Source) *Rand { return &Rand{src: src} }

type Zipf = mrand.Zipf

func NewZipf(r *Rand, s float64, v float64, imax uint64) *Zipf {
	return mrand.NewZipf(simrt.Stream(), s, v, imax)
}

func n63(n int64, name string) int64 {
	if n <= 0 {
		panic("invalid argument to " + name)
	}
	return int64(simrt.Uint64n(uint64(n)))
}

func (r *Rand) Seed(seed int64)      { simrt.Touch(r, "random generator"); simrt.Seed(seed) }
func (r *Rand) Int63() int64         { simrt.Touch(r, "random generator"); return Int63() }
func (r *Rand) Uint32() uint32       { simrt.Touch(r, "random generator"); return Uint32() }
func (r *Rand) Uint64() uint64       { simrt.Touch(r, "random generator"); return Uint64() }
func (r *Rand) Int31() int32         { simrt.Touch(r, "random generator"); return Int31() }
func (r *Rand) Int() int             { simrt.Touch(r, "random generator"); return Int() }
func (r *Rand) Int63n(n int64) int64 { simrt.Touch(r, "random generator"); return n63(n, "Int63n") }
func (r *Rand) Int31n(n int32) int32 {
	simrt.Touch(r, "random generator")
	return int32(n63(int64(n), "Int31n"))
}
func (r *Rand) Intn(n int) int             { simrt.Touch(r, "random generator"); return int(n63(int64(n), "Intn")) }
func (r *Rand) Float64() float64           { simrt.Touch(r, "random generator"); return Float64() }
func (r *Rand) Float32() float32           { simrt.Touch(r, "random generator"); return Float32() }
func (r *Rand) NormFloat64() float64       { simrt.Touch(r, "random generator"); return NormFloat64() }
func (r *Rand) ExpFloat64() float64        { simrt.Touch(r, "random generator"); return ExpFloat64() }
func (r *Rand) Perm(n int) []int           { simrt.Touch(r, "random generator"); return Perm(n) }
func (r *Rand) Read(p []byte) (int, error) { simrt.Touch(r, "random generator"); return Read(p) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	simrt.Touch(r, "random generator")
	Shuffle(n, swap)
}

func Seed(seed int64)      { simrt.Seed(seed) }
func Int63() int64         { return int64(simrt.Uint64() >> 1) }
func Uint32() uint32       { return uint32(simrt.Uint64() >> 32) }
func Uint64() uint64       { return simrt.Uint64() }
func Int31() int32         { return int32(simrt.Uint64() >> 33) }
func Int() int             { return int(simrt.Uint64() >> 1) }
func Int63n(n int64) int64 { return n63(n, "Int63n") }
func Int31n(n int32) int32 { return int32(n63(int64(n), "Int31n")) }
func Intn(n int) int       { return int(n63(int64(n), "Intn")) }
func Float64() float64     { return float64(simrt.Uint64n(1<<53)) / (1 << 53) }
func Float32() float32     { return float32(simrt.Uint64n(1<<24)) / (1 << 24) }
func NormFloat64() float64 { return simrt.Stream().NormFloat64() }
func ExpFloat64() float64  { return simrt.Stream().ExpFloat64() }

func Perm(n int) []int {
	m := make([]int, n)
	for i := 0; i < n; i++ {
		j := int(simrt.Uint64n(uint64(i + 1)))
		m[i] = m[j]
		m[j] = i
	}
	return m
}

func Shuffle(n int, swap func(i, j int)) {
	if n < 0 {
		panic("invalid argument to Shuffle")
	}
	for i := n - 1; i > 0; i-- {
		j := int(simrt.Uint64n(uint64(i + 1)))
		swap(i, j)
	}
}

func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(simrt.Uint64n(256))
	}
	return len(p), nil
}

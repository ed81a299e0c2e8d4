// Package drv runs simulations: it derives plans from seeds, executes them in worker processes,
// proves determinism, minimises failures, replays them and writes the evidence.
package drv

// R is the seeded generator behind every choice of the simulator (splitmix64).
type R struct{ s uint64 }

func NewR(seed uint64) *R { return &R{s: seed} }

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SeedFor derives the seed of one run.
func SeedFor(base int64, prop string, run int) uint64 {
	h := mix(uint64(base))
	for _, c := range prop {
		h = mix(h ^ uint64(c))
	}
	return mix(h ^ mix(uint64(run)))
}

func (r *R) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *R) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a value in [lo,hi].
func (r *R) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

func (r *R) U64n(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return r.Uint64() % n
}

// P returns true with probability num/den.
func (r *R) P(num, den int) bool { return r.Intn(den) < num }

// Pick returns an index chosen with the given weights.
func (r *R) Pick(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	x := r.Intn(t)
	for i, w := range weights {
		if x < w {
			return i
		}
		x -= w
	}
	return len(weights) - 1
}

// Log returns a value in [1,max] that is uniform in magnitude.
func (r *R) Log(max uint64) uint64 {
	bits := 0
	for m := max; m > 0; m >>= 1 {
		bits++
	}
	b := 1 + r.Intn(bits)
	v := r.Uint64() & (1<<uint(b) - 1)
	if b < 64 {
		v |= 1 << uint(b-1)
	}
	if v > max {
		v = v%max + 1
	}
	return v
}

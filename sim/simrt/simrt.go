// Package simrt is the run time of the simulator that instrumented library code calls into: the
// simulated clock and random stream of the current task, the statement level yield point and the
// seeded scheduler that releases one goroutine at a time.
package simrt

import (
	"fmt"
	mrand "math/rand"
	"time"
)

// MaxSites is the size of the coverage table.
const MaxSites = 1 << 14

var (
	// Hits counts the executions of each instrumented statement.
	Hits [MaxSites]uint32

	// Steps is the number of statements executed since ResetSteps. A run that exceeds StepLimit is
	// considered to hang and panics with HangError.
	Steps     uint64
	StepLimit uint64 = 20_000_000

	// Coarse is set by code that uses channels. Its goroutines are left to the Go run time, and tasks
	// are switched between operations only.
	Coarse bool

	sched *Sched
	env   = NewEnv(1)
)

// HangError is the panic value used when a run executes too many statements.
type HangError struct{ Steps uint64 }

func (e HangError) Error() string { return fmt.Sprintf("no progress after %d statements", e.Steps) }

func ResetSteps() { Steps = 0 }

// Y is called before every statement of the instrumented packages.
func Y(site int) {
	if site < MaxSites {
		Hits[site]++
	}
	Steps++
	if Steps > StepLimit {
		s := Steps
		Steps = 0
		panic(HangError{s})
	}
	if sched != nil && !Coarse {
		sched.yield()
	}
}

// Env is the nondeterministic environment of one task: its clock and its random stream.
type Env struct {
	// Clock is the current simulated time. Every reading advances it by Tick.
	Clock time.Time
	Tick  time.Duration

	// Adversarial selects draws biased to the ends of each range instead of a faithful generator.
	Adversarial bool

	// Draws counts draws and Reads counts clock readings.
	Draws, Reads int
	Seeds        int

	// Seeded makes the stream follow the seeds the code sets. Otherwise they are only counted, so that
	// draws don't depend on whether the code seeds on every call, once or not at all.
	Seeded bool

	faithful *mrand.Rand
	adv      *mrand.Rand
}

// Epoch is the start of simulated time.
var Epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

func NewEnv(seed int64) *Env {
	return &Env{
		Clock:    Epoch,
		Tick:     time.Microsecond,
		faithful: mrand.New(mrand.NewSource(seed)),
		adv:      mrand.New(mrand.NewSource(seed ^ 0x5deece66d)),
	}
}

// SetEnv installs the environment used when no scheduler is active.
func SetEnv(e *Env) { env = e }

// CurEnv returns the environment of the running task.
func CurEnv() *Env {
	if sched != nil && sched.cur != nil && sched.cur.env != nil {
		return sched.cur.env
	}
	return env
}

// Now reads the simulated clock.
func Now() time.Time {
	e := CurEnv()
	e.Reads++
	t := e.Clock
	e.Clock = e.Clock.Add(e.Tick)
	return t
}

// Sleep advances the simulated clock.
func Sleep(d time.Duration) {
	e := CurEnv()
	if d > 0 {
		e.Clock = e.Clock.Add(d)
	}
}

// Seed is called when the code seeds a generator.
func Seed(s int64) {
	e := CurEnv()
	e.Seeds++
	if !e.Seeded {
		return
	}
	e.faithful = mrand.New(mrand.NewSource(s))
}

// Uint64n returns a draw in [0,n) from the running task's stream. n must not be zero.
func Uint64n(n uint64) uint64 {
	e := CurEnv()
	e.Draws++
	if e.Adversarial {
		switch e.adv.Intn(4) {
		case 0:
			return 0
		case 1:
			return n - 1
		}
		return e.adv.Uint64() % n
	}
	if n == 1 {
		return 0
	}
	if n <= 1<<63-1 {
		return uint64(e.faithful.Int63n(int64(n)))
	}
	return e.faithful.Uint64() % n
}

// Uint64 returns 64 random bits from the running task's stream.
func Uint64() uint64 {
	e := CurEnv()
	e.Draws++
	if e.Adversarial {
		switch e.adv.Intn(4) {
		case 0:
			return 0
		case 1:
			return ^uint64(0)
		}
		return e.adv.Uint64()
	}
	return e.faithful.Uint64()
}

// Stream returns the generator behind non uniform draws of the running task.
func Stream() *mrand.Rand {
	e := CurEnv()
	e.Draws++
	return e.faithful
}

// Package world contains the simulated worlds and the oracles of the properties.
package world

import (
	"fmt"
	"strings"
	"time"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"

	"verifsim/drv"
	"verifsim/ref"
	"verifsim/simrt"
)

// Supply is the largest amount in existence.
const Supply = 21_000_000 * 100_000_000

// EnvPlan is the environment of a task: clock and random source.
type EnvPlan struct {
	Seed  int64 `json:"seed"`
	Adv   bool  `json:"adv,omitempty"`   // draws biased to the ends of each range
	Clock int64 `json:"clock,omitempty"` // offset of the clock in nanoseconds
	Tick  int64 `json:"tick,omitempty"`  // progress of the clock per reading, zero is a frozen clock
}

func genEnv(r *drv.R) EnvPlan {
	e := EnvPlan{Seed: int64(r.Intn(1 << 30)), Adv: r.P(1, 2), Tick: int64(r.Pick(1, 3) * 1000)}
	switch r.Pick(4, 1, 1, 1, 1) {
	case 4:
		e.Clock = int64(r.Log(1 << 62))
	case 1:
		e.Clock = -int64(time.Duration(r.Range(1, 24*365)) * time.Hour)
	case 2:
		e.Clock = int64(time.Duration(r.Range(1, 24*365*50)) * time.Hour)
	case 3:
		e.Clock = -simrt.Epoch.UnixNano() + int64(r.Intn(3)) // the beginning of time
	}
	return e
}

func (e EnvPlan) env() *simrt.Env {
	x := simrt.NewEnv(e.Seed)
	x.Adversarial = e.Adv
	x.Clock = simrt.Epoch.Add(time.Duration(e.Clock))
	x.Tick = time.Duration(e.Tick)
	return x
}

// use installs the environment and counts its faults.
func (e EnvPlan) use(t *drv.T) *simrt.Env {
	x := e.env()
	simrt.SetEnv(x)
	if e.Adv {
		t.Fault("random source at the ends of its range")
	}
	if e.Clock != 0 {
		t.Fault("clock jump")
	}
	if e.Tick == 0 {
		t.Fault("frozen clock")
	}
	return x
}

// Locks are described by small numbers so that plans stay short: kind in the lowest digit.
func lockOf(n int) ref.Lock {
	if n < 0 {
		n = -n
	}
	k := n / 8
	switch n % 8 {
	case 0, 1, 2, 3:
		return ref.NewP2PKH(k % 40)
	case 4:
		return ref.NewP2PK(k % 40)
	case 5:
		total := 1 + k%5
		req := 1 + (k/5)%total
		return ref.NewMulti(req, seq(k%40, total))
	case 6:
		total := 1 + k%20
		req := 1 + (k/20)%total
		return ref.NewMulti(req, seq(k%40, total))
	default:
		return ref.NewOther(k % 40)
	}
}

var locksByScript map[string]ref.Lock

// lockByScript finds the lock that plans name by number from its script.
func lockByScript(script []byte) (ref.Lock, bool) {
	if locksByScript == nil {
		locksByScript = map[string]ref.Lock{}
		for n := 0; n < 512; n++ {
			for _, k := range []int{0, 4, 5, 6} {
				x := lockOf(n*8 + k)
				locksByScript[string(x.Script)] = x
			}
		}
	}
	x, ok := locksByScript[string(script)]
	return x, ok
}

func seq(from, n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = from + i
	}
	return r
}

func addr(l ref.Lock) bitcoin.RawAddress {
	a, err := bitcoin.RawAddressFromLockingScript(l.Script)
	if err != nil {
		panic(err)
	}
	return a
}

func outFee(l ref.Lock, rate float32) uint64 { return ref.Fee(ref.OutSize(l.Script), rate) }

// inFee is the fee of an input that spends the lock, zero if its size cannot be known.
func inFee(l ref.Lock, rate float32) uint64 {
	n := l.MaxUnlock()
	if n < 0 {
		return 0
	}
	return ref.Fee(ref.InSize(n), rate)
}

var rates = []float32{0.05, 0.25, 0.5, 0.001, 1, 1.1, 2, 5.5, 0.33, 0.0001, 47.3}

func genRate(r *drv.R) float32 { return rates[r.Intn(len(rates))] }

var dustRates = []float32{0, 0.05, 0.25, 1, 1, 0.5, 3, 0.001, 0.0007, 0.01}

func genDustRate(r *drv.R) float32 { return dustRates[r.Intn(len(dustRates))] }

func near(r *drv.R, base uint64, spread int) uint64 {
	d := r.Range(-spread, spread)
	if d < 0 && uint64(-d) > base {
		return 0
	}
	return uint64(int64(base) + int64(d))
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	s := err.Error()
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

// keyName gives key identifiers, some of which are empty or used twice.
func keyName(of string, i int) string {
	switch i % 7 {
	case 4:
		return ""
	case 6:
		return fmt.Sprintf("%s-%d", of, i-1)
	}
	return fmt.Sprintf("%s-%d", of, i)
}

func addrKeys(locks []ref.Lock) []txbuilder.AddressKeyID {
	r := make([]txbuilder.AddressKeyID, len(locks))
	for i, l := range locks {
		r[i] = txbuilder.AddressKeyID{Address: addr(l), KeyID: keyName("key", i)}
	}
	return r
}

var realLib = []string{"all packages of the repository, compiled with a statement level yield point", "github.com/tokenized/pkg (keys, scripts, wire)", "bitcoin_interpreter", "channels"}
